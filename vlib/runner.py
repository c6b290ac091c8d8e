"""Drives the facets of one property: replayed corpus, known findings, parallel seeded search, shrinking,
replay files and evidence."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import time
import traceback

from . import boot, fresh

VERIF = boot.VERIF
NWORKERS = 8


class Violation(Exception):
    """The property is broken on the case at hand."""


class Skip(Exception):
    """The case is outside the property's domain (counted, not judged)."""


class HarnessError(Exception):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# a case takes milliseconds; this only ends code that never returns
CASE_LIMIT_S = 90


def _too_long(signum, frame):
    raise Violation(f"the code under test did not return within {CASE_LIMIT_S} s (normally milliseconds)")


def key_of(spec):
    return hashlib.blake2b(
        json.dumps(spec, sort_keys=True, default=str).encode(), digest_size=8
    ).hexdigest()


class Facet:
    """name, strategy(tier)->hypothesis strategy of JSON cases, run(case)->list of class labels.

    run raises Violation; a label 'nontrivial' in the returned list makes the case count as non-trivial."""

    def __init__(self, name, strategy, run, quick=400, thorough=8000, rule=""):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.examples = {"quick": quick, "thorough": thorough}
        self.rule = rule


def in_sut(exc):
    """Does the exception originate in (pass through) the code under test?"""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.SRC + os.sep):
            return True
        tb = tb.tb_next
    for linked in (exc.__cause__, exc.__context__):
        if linked is not None and linked is not exc and in_sut(linked):
            return True
    return False


def judge(facet, spec):
    """Run one case. Returns the labels; raises Violation / HarnessError / Skip."""
    return judged(lambda: facet.run(spec)) or []


def judged(f):
    boot.reset_uuid(0)
    signal.signal(signal.SIGALRM, _too_long)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        return f()
    except (Violation, Skip, HarnessError):
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: BLE001
        if type(e).__module__.startswith("hypothesis"):
            raise
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if in_sut(e):
            raise Violation(
                f"the code under test raised {type(e).__name__}: {e}\n{text}"
            ) from None
        if isinstance(e, (LookupError, TypeError, AttributeError, ValueError, ArithmeticError)):
            # what the code under test gave back does not have the shape that is read here: a missing key, column, attribute, ...
            raise Violation(f"a result cannot be judged: {type(e).__name__}: {e}\n{text}") from None
        raise HarnessError(f"{type(e).__name__}: {e}\n{text}") from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def seed_for(seed, prop, facet, worker):
    h = hashlib.sha256(f"{seed}/{prop}/{facet}/{worker}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def search(prop, facet, tier, seed, worker, n, stop, t_end, scale):
    """One worker's share of the search of one facet."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    out = dict(evals=0, skipped=0, classes=collections.Counter(), keys=set(),
               samples=[], fail=None, error=None, budget=False, first=None)
    state = dict(fail_at=None)
    shrink_budget = 25 if tier == "quick" else 90

    def body(spec):
        now = time.monotonic()
        if state["fail_at"] is None:
            if now > t_end or stop.is_set():
                out["budget"] = out["budget"] or now > t_end
                return
        elif now > state["fail_at"] + shrink_budget:
            return
        try:
            labels = judge(facet, spec)
        except Violation as e:
            out["fail"] = (spec, str(e))
            if out["first"] is None:
                out["first"] = (spec, str(e))
                state["fail_at"] = now
                stop.set()
            raise
        except Skip:
            out["skipped"] += 1
            return
        except HarnessError as e:
            # not minimised; the other facets and workers go on, a violation there still counts
            out["error"] = (spec, str(e))
            state["fail_at"] = now - shrink_budget
            raise
        if state["fail_at"] is None:
            out["evals"] += 1
            out["classes"].update(set(labels))
            if "nontrivial" in labels:
                k = key_of(spec)
                if k not in out["keys"]:
                    out["keys"].add(k)
                    if len(out["samples"]) < 2:
                        out["samples"].append(spec)

    examples = max(1, int(facet.examples[tier] * scale) // n + (1 if int(facet.examples[tier] * scale) % n > worker else 0))
    test = given(facet.strategy(tier))(body)
    test = settings(
        max_examples=examples, database=None, deadline=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )(test)
    test = hypothesis.seed(seed_for(seed, prop, facet.name, worker))(test)
    try:
        test()
    except (Violation, HarnessError):
        pass
    except hypothesis.errors.Flaky as e:
        if out["fail"] is None and out["error"] is None:
            out["error"] = (None, f"flaky: {e}")
    except BaseException as e:  # noqa: BLE001
        if out["fail"] is None and out["error"] is None:
            out["error"] = (None, "".join(traceback.format_exception(e)[-8:]))
    return out


def _worker(prop, facets, tier, seed, worker, n, stop, t_end, scale, conn):
    try:
        import faulthandler
        faulthandler.enable()
        res = {}
        for f in facets:
            if stop.is_set():
                break
            r = search(prop, f, tier, seed, worker, n, stop, t_end, scale)
            res[f.name] = r
            if r["fail"] is not None:
                break
        conn.send(res)
    except BaseException as e:  # noqa: BLE001
        conn.send({"__error__": "".join(traceback.format_exception(e))})
    finally:
        conn.close()
        os._exit(0)


def write_replay(prop, facet, spec, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{facet}-{key_of(spec)[:8]}.json")
    with open(path, "w") as fh:
        json.dump({"property": prop, "facet": facet, "case": spec, "message": msg,
                   "how": f"/opt/venv/bin/python run_check.py {prop} --replay {os.path.relpath(path, VERIF)}"},
                  fh, indent=1, default=str)
    return os.path.relpath(path, VERIF)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as fh:
        return [k for k in json.load(fh)["findings"] if k["property"] == prop and k["status"] == "known"]


def run(prop, module, tier, seed, replay=None):
    t0 = time.monotonic()
    facets = {f.name: f for f in module.FACETS}
    fresh.start(getattr(module, "FRESH", ()), module.__name__)
    if replay:
        with open(replay) as fh:
            data = json.load(fh)
        f = facets[data["facet"]]
        try:
            labels = judge(f, data["case"])
        except Violation as e:
            print(str(e))
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        except Skip as e:
            print(f"case is outside the domain: {e}")
            return 0
        except HarnessError as e:
            print(f"HARNESS ERROR: {e}")
            return 3
        print("holds on this case", labels)
        return 0

    scale = float(os.environ.get("VERIF_SCALE", "1"))
    budget = float(os.environ.get("VERIF_BUDGET_S", "300" if tier == "quick" else "3300"))
    t_end = t0 + budget
    problems = []  # (facet, spec, msg)
    errors = []
    # known findings: re-run each listed input
    known_lines = []
    for k in load_known(prop):
        f = facets[k["facet"]]
        try:
            judge(f, dict(k["case"], known=True) if isinstance(k["case"], dict) else k["case"])
        except Violation:
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        except HarnessError as e:
            errors.append((k["facet"], None, str(e)))
        except Skip:
            pass
    # saved cases
    corpus_n = 0
    cdir = os.path.join(VERIF, "corpus", prop)
    if os.path.isdir(cdir):
        for fn in sorted(os.listdir(cdir)):
            with open(os.path.join(cdir, fn)) as fh:
                data = json.load(fh)
            if data["facet"] not in facets:
                continue
            corpus_n += 1
            try:
                judge(facets[data["facet"]], data["case"])
            except Violation as e:
                problems.append((data["facet"], data["case"], str(e)))
                break
            except Skip:
                pass
            except HarnessError as e:
                errors.append((data["facet"], data["case"], str(e)))
    results = {name: [] for name in facets}
    if not problems and not errors:
        ctx = mp.get_context("fork")
        stop = ctx.Event()
        procs = []
        n = NWORKERS
        for w in range(n):
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(prop, list(facets.values()), tier, seed, w, n, stop, t_end, scale, b))
            p.start()
            b.close()
            procs.append((p, a))
        for p, a in procs:
            res = None
            try:
                # generous: a worker always returns by itself once the budget is over
                if a.poll(max(1.0, t_end + 240 - time.monotonic())):
                    res = a.recv()
            except EOFError:
                res = None
            if res is None:
                # a single case that never ends: the code under test loops for ever or the process died
                p.kill()
                errors.append(("?", None, f"worker gave no result (exit {p.exitcode})"))
                continue
            p.join(10)
            if "__error__" in res:
                errors.append(("?", None, res["__error__"]))
                continue
            for name, r in res.items():
                results[name].append(r)
                if r["fail"] is not None:
                    problems.append((name, *r["fail"]))
                if r["error"] is not None:
                    errors.append((name, *r["error"]))
    # evidence
    facet_info, evals, keys_total, samples, classes_total, skipped = {}, 0, 0, [], collections.Counter(), 0
    for name, rs in results.items():
        keys = set().union(*[r["keys"] for r in rs]) if rs else set()
        ev = sum(r["evals"] for r in rs)
        cl = sum((r["classes"] for r in rs), collections.Counter())
        facet_info[name] = {"evaluations": ev, "distinct_nontrivial": len(keys),
                            "outside_domain": sum(r["skipped"] for r in rs),
                            "classes": dict(sorted(cl.items())), "rule": facets[name].rule,
                            "time_budget_hit": any(r["budget"] for r in rs)}
        evals += ev
        keys_total += len(keys)
        skipped += sum(r["skipped"] for r in rs)
        classes_total.update(cl)
        for r in rs:
            for s in r["samples"]:
                if len([x for x in samples if x["facet"] == name]) < 2:
                    samples.append({"facet": name, "case": s})
    level = getattr(module, "LEVEL", "exploration")
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": keys_total,
            "rule": module.RULE, "samples": samples, "facets": facet_info,
            "corpus_replayed": corpus_n, "known_findings_replayed": len(known_lines),
            "technique": "Hypothesis-generated cases against an explicit oracle, shrunk to a replay file",
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(problems),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
    for line in known_lines:
        print(line)
    for name, info in facet_info.items():
        print(f"[{prop}/{name}] cases={info['evaluations']} nontrivial={info['distinct_nontrivial']} "
              f"skipped={info['outside_domain']} {info['classes']}")
    print(f"[{prop}] {evidence['wall_s']} s")
    if problems:
        # smallest first
        problems.sort(key=lambda p: len(json.dumps(p[1], default=str)))
        name, spec, msg = problems[0]
        path = write_replay(prop, name, spec, msg)
        print(f"facet {name}: {msg}")
        print("case: " + json.dumps(spec, default=str)[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for name, spec, msg in errors[:3]:
            print(f"HARNESS ERROR in {name}: {msg}\ncase: {json.dumps(spec, default=str)[:800]}")
        return 3
    # a check that judged next to nothing must not pass silently
    for name, info in facet_info.items():
        if info["distinct_nontrivial"] < 1 and scale >= 1:
            print(f"HARNESS ERROR: facet {name} produced no non-trivial case")
            return 3
    return 0


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    args = ap.parse_args()
    try:
        boot.setup()
        import importlib

        module = importlib.import_module(f"checks.{args.property.lower()}")
        rc = run(args.property, module, args.tier, args.seed, args.replay)
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        fresh.end()
        shutil.rmtree(boot.scratch(), ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

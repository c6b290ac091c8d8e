#!/opt/venv/bin/python
"""Write /verif/seeded/<id>/ from tools/bugs/defs*.py and validate planted bugs in scratch copies (private mount
namespaces put the copies at /repo and /verif; the real trees are never touched).

  plant.py write [ID...]          write seeded/<id>
  plant.py test [ID...]           patch applies, only original lines removed, demo passes/fails, test suite passes
  plant.py check [-j N] [ID...]   run the check of the bug's property (quick) against it; --props C01,C02 for others, --seeds 1,2,3
"""
import importlib.util, json, os, pathlib, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
SEEDED = VERIF / "seeded"
REPO = pathlib.Path("/repo")
RESULTS = HERE / "bugs" / "results.json"
SRC = "src/openclsim/"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def load():
    bugs = {}
    for f in sorted((HERE / "bugs").glob("defs*.py")):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    return bugs


def write(b):
    d = SEEDED / b["id"]
    d.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory() as tmp:
        t = pathlib.Path(tmp)
        (t / "a").mkdir(); (t / "b").mkdir()
        files = {}
        for name, old, new in b["edits"]:
            text = files.get(name) or (REPO / SRC / name).read_text()
            # blank lines are ignored when looking for the text
            rx = "".join(r"\n(?:[ \t]*\n)*" if c == "\n" else re.escape(c) for c in re.sub(r"\n\s*\n", "\n", old))
            found = list(re.finditer(rx, text))
            if len(found) != 1:
                raise SystemExit(f"{b['id']}: {len(found)} matches in {name} for:\n{old}")
            files[name] = text[: found[0].start()] + new + text[found[0].end() :]
        diff = ""
        for name, text in files.items():
            p = SRC + name
            for side, content in (("a", (REPO / p).read_text()), ("b", text)):
                q = t / side / p
                q.parent.mkdir(parents=True, exist_ok=True)
                q.write_text(content)
            r = subprocess.run(["diff", "-u", "a/" + p, "b/" + p], cwd=t, stdout=subprocess.PIPE, text=True)
            lines = r.stdout.splitlines(keepends=True)
            lines[0] = f"--- a/{p}\n"; lines[1] = f"+++ b/{p}\n"
            diff += f"diff --git a/{p} b/{p}\n" + "".join(lines)
    (d / "patch.diff").write_text(diff)
    prelude = (HERE / "bugs" / "prelude.py").read_text()
    (d / "demo.py").write_text(prelude + b["demo"].strip() + "\n")
    (d / "demo.sh").write_text(
        '#!/bin/bash\n# exit 0 if the property holds for this scenario; run with the tree under test as cwd\n'
        'export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PROJ_NETWORK=OFF\n'
        'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps(
        {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")


def copy_repo(patch=None):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    sh(["cp", "-a", "/repo", d + "/repo"])
    if patch:
        r = sh(["git", "-C", d + "/repo", "apply", str(patch)])
        if r.returncode:
            shutil.rmtree(d)
            raise RuntimeError(r.stdout)
    return d


def isolated(d, command, verif=False, timeout=900):
    script = f"mount --bind {d}/repo /repo && "
    if verif:
        script += f"mount --bind {d}/verif /verif && "
    return sh(["unshare", "-m", "bash", "-c", script + command], timeout=timeout, cwd="/")


def original_lines(bid):
    """every removed line was there at the base commit"""
    patch = SEEDED / bid / "patch.diff"
    base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    removed = []; name = None; old = 0
    for l in patch.read_text().splitlines():
        if l.startswith("--- a/"): name = l[6:]
        elif l.startswith("@@"): old = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("+++") or l.startswith("diff "): pass
        elif l.startswith("-"): removed.append((name, old, l)); old += 1
        elif l.startswith("+"): pass
        else: old += 1
    bad = []
    for name, n, l in removed:
        r = sh(["git", "-C", "/repo", "blame", "-l", "-s", f"-L{n},{n}", "--", name]).stdout
        if not r.lstrip("^").startswith(base[:39]): bad.append(l)
    return removed, bad


def test(bid, suite=True):
    out = [bid]
    removed, bad = original_lines(bid)
    if not removed: out.append("NO-ORIGINAL-LINE-REMOVED")
    if bad and len(bad) == len(removed): out.append(f"ONLY-OWN-LINES {bad}")
    demo = SEEDED / bid / "demo.sh"
    r = sh(["bash", str(demo)], cwd="/repo")
    if r.returncode != 0: out.append(f"DEMO-FAILS-UNCHANGED {r.stdout.strip()[-160:]}")
    try:
        d = copy_repo(SEEDED / bid / "patch.diff")
    except RuntimeError as e:
        out.append(f"NO-APPLY {e}")
        return out, False
    try:
        r = isolated(d, f"cp -r {SEEDED / bid} /tmp/{bid}.demo && cd /repo && bash /tmp/{bid}.demo/demo.sh; R=$?; rm -rf /tmp/{bid}.demo; exit $R")
        if r.returncode == 0: out.append("DEMO-PASSES-PATCHED")
        if "Traceback" in r.stdout: out.append("(traceback) " + r.stdout.strip().splitlines()[-1][:150])
        if suite and len(out) <= 2:
            r = isolated(d, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {d}/out.json")
            try:
                res = json.load(open(d + "/out.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                stable = base["stable"]
                passed = set(res.get("passed", []))
                missing = [t for t in stable if t not in passed]
                if missing: out.append(f"TESTS-FAIL {missing[:4]}")
            except Exception as e:
                out.append(f"TESTS? {e!r} {r.stdout[-300:]}")
    finally:
        shutil.rmtree(d)
    ok = not any(o.isupper() or o.split(" ")[0].isupper() for o in out[1:])
    return out, ok


def check(bid, props=None, tier="quick", extra="", seed="1"):
    meta = json.load(open(SEEDED / bid / "meta.json"))
    props = props or [meta["property"]]
    d = copy_repo(SEEDED / bid / "patch.diff")
    try:
        sh(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", "/verif", d]) if shutil.which("rsync") else \
            sh(["bash", "-c", f"mkdir {d}/verif && cd /verif && tar c --exclude=.git --exclude=./seeded . | tar x -C {d}/verif"])
        res = {}
        for p in props:
            r = isolated(d, f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} {extra} ./run_check.py {p} --tier {tier}", verif=True)
            caught = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            res[p] = ("caught" if caught else "MISSED" if r.returncode == 0 else f"rc={r.returncode}",
                      [l for l in r.stdout.splitlines() if l.strip()][-6:])
    finally:
        shutil.rmtree(d)
    return bid, res


def main():
    args = sys.argv[2:]; jobs = 1; also = None; verbose = False; seeds = ["1"]
    pos = []
    while args:
        a = args.pop(0)
        if a == "-j": jobs = int(args.pop(0))
        elif a == "--props": also = args.pop(0).split(",")
        elif a == "-v": verbose = True
        elif a == "--seeds": seeds = args.pop(0).split(",")
        else: pos.append(a)
    cmd = sys.argv[1]
    bugs = load()
    if cmd == "write":
        for i in pos or bugs: write(bugs[i])
        return
    ids = pos or sorted(p.name for p in SEEDED.iterdir())
    with ThreadPoolExecutor(jobs) as ex:
        if cmd in ("test", "demo"):
            for out, ok in ex.map(lambda i: test(i, cmd == "test"), ids):
                print("ok  " if ok else "BAD ", *out, flush=True)
        elif cmd == "check":
            for seed, (bid, res) in ex.map(lambda x: (x[1], check(x[0], also, seed=x[1])), [(i, s) for i in ids for s in seeds]):
                for p, (v, tail) in res.items():
                    print(bid, p, v, *([] if seeds == ["1"] else ["seed", seed]), flush=True)
                    if seed != "1":
                        continue
                    done = json.loads(RESULTS.read_text()) if RESULTS.exists() else {}
                    done.setdefault(bid, {})[p] = v
                    RESULTS.write_text(json.dumps(done, indent=0, sort_keys=True) + "\n")
                    if verbose or v.startswith("rc") : print("   ", "\n    ".join(tail), flush=True)


main()

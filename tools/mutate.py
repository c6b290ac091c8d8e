#!/opt/venv/bin/python
"""Systematic small changes (mutants) of the code under test, run against the checks in scratch copies.

  mutate.py list [FILE...]                      number of mutants per file
  mutate.py run OUT.json -n N [-j J] [--seed S] [--scale X] [FILE...]   run a random sample
  mutate.py again OUT.json [--scale X]          run the survivors in OUT.json again with more cases
  mutate.py show OUT.json                       survivors as diffs"""
import argparse, ast, difflib, json, os, pathlib, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = pathlib.Path("/repo/src/openclsim")
FLEET = "C09 C20 C12 C10 C16 C13 C15 C11 C14 C33 C34 C36 C38 C40 C35 C22 C37".split()
PROG = "C06 C05 C02 C04 C03 C01 C07 C19 C17 C20 C23 C30 C22 C37 C38 C12 C16 C13 C34".split()
CHECKS = {
    "io.py": "C24 C25 C36 C22 C21".split(),
    "utils.py": [],
    "core/container.py": ["C33"] + FLEET,
    "core/events_container.py": ["C15", "C33", "C07"] + FLEET,
    "core/identifiable.py": ["C32", "C20", "C35"],
    "core/locatable.py": ["C31", "C08", "C20", "C35"],
    "core/log.py": ["C20", "C21", "C01", "C36", "C25", "C35"],
    "core/movable.py": ["C08", "C31", "C20", "C35", "C12", "C22"],
    "core/processor.py": FLEET,
    "core/resource.py": FLEET,
    "critical_path/base_cp.py": "C27 C29 C39 C30 C28 C41 C22".split(),
    "critical_path/dependencies_from_recorded_activities.py": "C29 C39 C27 C41 C22".split(),
    "critical_path/dependencies_from_simpy_step.py": "C30 C39 C37".split(),
    "critical_path/simulation_graph.py": "C28 C29 C30 C39".split(),
    "model/base_activities.py": PROG + FLEET,
    "model/basic_activity.py": PROG,
    "model/helpers.py": ["C23", "C24", "C21", "C38"] + PROG,
    "model/move_activity.py": ["C08", "C12", "C19", "C17", "C20", "C13", "C22", "C34"],
    "model/parallel_activity.py": ["C03"] + PROG,
    "model/sequential_activity.py": ["C02"] + PROG,
    "model/shift_amount_activity.py": FLEET + ["C19", "C17"],
    "model/single_run_process.py": ["C34", "C36"],
    "model/while_activity.py": ["C05", "C04"] + PROG,
    "plot/log_dataframe.py": ["C21", "C26", "C24", "C36", "C27"],
    "plot/step_chart.py": ["C26", "C36"],
    "plot/vessel_planning.py": ["C26", "C36", "C41"],
    "plugins/delay.py": ["C17", "C19", "C35", "C18"],
    "plugins/weather.py": ["C18", "C36", "C37", "C35"],
}
OPS = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(name):
    text = (SRC / name).read_text()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def put(a, b, new, what):
        out.append(dict(file=name, a=a, b=b, new=new, what=what, line=text.encode()[:a].count(b"\n") + 1))

    tree = ast.parse(text)
    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr)}
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and "warn" in ast.unparse(n.func) or isinstance(n, ast.Call) and "logger" in ast.unparse(n.func)):
            skip |= {id(x) for x in ast.walk(n) if x is not n}
        if isinstance(n, (ast.FunctionDef,)):
            skip |= {id(x) for a in n.args.args for x in ast.walk(a)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
    for n in ast.walk(tree):
        if id(n) in skip or id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            put(a, b, f" {OPS[type(n.ops[0])]} " + ("" if raw[a:b].count(b"(") == 0 else "("), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            old = raw[a:b].decode()
            for o in "*/+-":
                if o in old:
                    put(a, b, old.replace(o, BIN[type(n.op)], 1), "arithmetic")
                    break
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            old = raw[a:b].decode()
            w = "and" if isinstance(n.op, ast.And) else "or"
            put(a, b, old.replace(w, {"and": "or", "or": "and"}[w], 1), "and/or")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            put(a, b, "(" + raw[span(n.operand)[0]:b].decode() + ")", "not")
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            if isinstance(n.value, bool):
                put(a, b, str(not n.value), "constant")
            elif isinstance(n.value, (int, float)):
                put(a, b, str(n.value + 1), "constant")
            elif isinstance(n.value, str) and raw[a:b][:1] in b"\"'":
                put(a, b, repr(n.value + "X"), "string")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a = pos(k.lineno, k.col_offset)
                    b = span(k.value)[1]
                    while raw[b:b + 1] in (b" ", b"\n", b","):
                        b += 1
                        if raw[b - 1:b] == b",":
                            break
                    put(a, b, "", "keyword")
        elif isinstance(n, ast.If):
            a, b = span(n.test)
            put(a, b, "True", "always")
            put(a, b, "False", "never")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Break, ast.Continue, ast.Assert, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            a, b = span(n)
            has_yield = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
            put(a, b, "yield self.env.timeout(0)" if has_yield and "simpy_step" not in name else "pass", "statement")
            if isinstance(n, ast.Return) and n.value is not None:
                put(a, b, "return None", "return")
    res = []
    for m in out:
        new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append(m)
    return res


def mutated(m):
    raw = (SRC / m["file"]).read_bytes()
    return raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]


def diff(m):
    old = (SRC / m["file"]).read_text().splitlines()
    return "\n".join(l for l in difflib.unified_diff(old, mutated(m).decode().splitlines(), m["file"], m["file"], lineterm="", n=2))


def judge(m, scale, checks=None, seed=1):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        subprocess.run(["bash", "-c", f"mkdir {d}/verif && cd /verif && tar c --exclude=.git --exclude=./seeded --exclude=./replays . | tar x -C {d}/verif"])
        (pathlib.Path(d) / "repo/src/openclsim" / m["file"]).write_bytes(mutated(m))
        tried, odd = [], []
        for p in dict.fromkeys(checks or CHECKS[m["file"]]):
            try:
                r = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && VERIF_SCALE={scale} VERIF_BUDGET_S=200 ./run_check.py {p} --seed {seed}"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            tried.append(p)
            if rc == 1:
                return dict(m, by=p, odd=odd)
            if rc != 0:
                odd.append([p, rc])
        return dict(m, by=None, odd=odd)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd"); ap.add_argument("rest", nargs="*")
    ap.add_argument("-n", type=int, default=100); ap.add_argument("-j", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--scale", type=float, default=0.25)
    a = ap.parse_args()
    if a.cmd == "list":
        total = 0
        for f in a.rest or CHECKS:
            n = len(mutants(f)); total += n
            print(n, f)
        print(total)
    elif a.cmd == "run":
        out, files = a.rest[0], a.rest[1:] or [f for f in CHECKS if CHECKS[f]]
        done = json.load(open(out)) if os.path.exists(out) else []
        seen = {(m["file"], m["a"], m["b"], m["new"]) for m in done}
        todo = [m for f in files for m in mutants(f) if (m["file"], m["a"], m["b"], m["new"]) not in seen]
        random.Random(a.seed).shuffle(todo)
        with ThreadPoolExecutor(a.j) as ex:
            for r in ex.map(lambda m: judge(m, a.scale), todo[:a.n]):
                done.append(r)
                json.dump(done, open(out, "w"))
                print(r["file"], r["line"], r["what"], r["by"], r["odd"], flush=True)
    elif a.cmd == "again":
        done = json.load(open(a.rest[0]))
        live = [i for i, m in enumerate(done) if m["by"] is None and not m.get("equivalent")]
        with ThreadPoolExecutor(a.j) as ex:
            for i, r in zip(live, ex.map(lambda i: judge(done[i], a.scale, seed=a.seed), live)):
                done[i] = r
                json.dump(done, open(a.rest[0], "w"))
                print(r["file"], r["line"], r["what"], r["by"], r["odd"], flush=True)
    elif a.cmd == "show":
        for i, m in enumerate(json.load(open(a.rest[0]))):
            if m["by"] is None and not m.get("equivalent"):
                print("=====", i, m["what"], m["odd"]); print(diff(m))


main()

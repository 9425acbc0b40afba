"""
Development tool: random small changes of the package, judged by the quick checks.

mutate.py OUT.jsonl --n 200 --seed 1 --jobs 2 [--files substring,...]
"""
import argparse
import ast
import concurrent.futures as cf
import difflib
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/ciceroscm"
ORDER = {
    "upwelling": "C01 C02 C04 C12 C19", "two_layer": "C03 C04 C19 C20", "abstract_thermal": "C19 C20 C03 C01 C11",
    "carbon_cycle_mod.py": "C05 C06 C19 C11 C20 C12", "carbon_cycle_mod_box": "C07 C19 C11 C12", "carbon_cycle_abstract": "C05 C06 C07 C19 C11",
    "common_carbon": "C06 C07 C05", "rfuns": "C05 C06 C20 C19",
    "concentrations_emissions": "C08 C09 C10 C04 C13 C15 C11 C19 C06 C12 C14 C05 C18", "input_handler": "C14 C20 C15 C04 C10 C13 C19",
    "perturbations": "C15 C10 C11", "pub_utils": "C20 C09 C05", "_utils": "C19 C20 C11", "ciceroscm.py": "C10 C13 C04 C11 C12 C14 C18 C06 C05",
    "component_factory": "C19 C20 C03 C07", "reformat_cscm": "C18 C16", "reformat_inputdata": "C18 C20", "cscmparwrapper": "C16 C18",
    "_parallel_process": "C16", "_configdistro": "C17", "distributionrun": "C17 C16", "make_plots": "C21", "constants": "C01 C02 C03 C05 C18 C04",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "*"}
SWAP = [("_NH", "_SH"), ("_SH", "_NH"), ("volc_n", "volc_s"), ("volc_s", "volc_n"), ("foan", "foas"), ("foas", "foan"), ("nh", "sh"), ("sh", "nh"),
        ("rs_", "rb_"), ("rb_", "rs_"), ("CH4", "N2O"), ("N2O", "CH4"), ("TAU2", "TAU3"), ("EM_UNIT", "CONC_UNIT"), ("CONC_UNIT", "EM_UNIT"),
        ("CO2_FF", "CO2_AFOLU"), ("BC", "OC"), ("qbc", "qoc"), ("nystart", "nyend"), ("emstart", "nystart")]


def sites(text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    start = [0]
    for ln in lines:
        start.append(start[-1] + len(ln.encode()))
    raw = text.encode()
    pos = lambda n: (start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset)
    skip = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.append(pos(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(("LOGGER", "print")):
            skip.append(pos(n))
        if isinstance(n, ast.Raise):
            skip.append(pos(n))
    inside = lambda p: any(a <= p[0] and p[1] <= b for a, b in skip)
    out = []

    def add(p, new, what):
        if not inside(p):
            out.append((p, new, what))

    for n in ast.walk(tree):
        if not hasattr(n, "lineno"):
            continue
        p = pos(n)
        seg = raw[p[0]:p[1]].decode()
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = pos(n.left), pos(n.comparators[0])
            add((l[1], r[0]), " " + CMP[type(n.ops[0])] + " ", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = pos(n.left), pos(n.right)
            mid = raw[l[1]:r[0]].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%"}[type(n.op)]
            if mid.count(sym) == 1:
                add((l[1], r[0]), mid.replace(sym, BIN[type(n.op)]), "bin")
        elif isinstance(n, ast.BoolOp):
            l, r = pos(n.values[0]), pos(n.values[1])
            mid = raw[l[1]:r[0]].decode()
            a, b = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            add((l[1], r[0]), mid.replace(a, b), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(p, "(" + raw[pos(n.operand)[0]:pos(n.operand)[1]].decode() + ")", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(p, "(" + raw[pos(n.operand)[0]:pos(n.operand)[1]].decode() + ")", "neg")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(p, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            add(p, repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.02 if n.value else 0.01), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and seg[:1] in "\"'":
            for a, b in SWAP:
                if a in n.value and "\n" not in seg:
                    add(p, seg.replace(a, b), "key")
                    break
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.endswith(".copy") or f == "copy.deepcopy":
                new = f[:-5] if f.endswith(".copy") else ast.unparse(n.args[0])
                add(p, new, "copy")
            elif f in ("max", "min", "np.maximum", "np.minimum"):
                add(pos(n.func), {"max": "min", "min": "max", "np.maximum": "np.minimum", "np.minimum": "np.maximum"}[f], "minmax")
            elif f in ("abs", "np.abs"):
                add(pos(n.func), "", "abs")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
                add(p, "pass", "del")
        elif isinstance(n, ast.If) and not inside(p):
            t = pos(n.test)
            add(t, "True", "iftrue")
            add(t, "False", "iffalse")
        elif isinstance(n, ast.Break):
            add(p, "pass", "break")
        elif isinstance(n, ast.Continue):
            add(p, "break", "continue")
        elif isinstance(n, ast.Slice) and n.lower is not None:
            add(pos(n.lower), "(" + raw[pos(n.lower)[0]:pos(n.lower)[1]].decode() + ") + 1", "slice")
    return raw, out


def regimes(text):
    """Changes that only show in some regime: limits, signs, rounding, missing first or last item."""
    tree = ast.parse(text)
    start = [0]
    for ln in text.splitlines(keepends=True):
        start.append(start[-1] + len(ln.encode()))
    raw = text.encode()
    pos = lambda n: (start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def wrap(n):
        src = raw[pos(n)[0]:pos(n)[1]].decode()
        for what, new in (("max0", f"np.maximum({src}, 0)"), ("min0", f"np.minimum({src}, 0)"), ("abs", f"np.abs({src})"),
                          ("round", f"np.round({src}, 5)"), ("f32", f"np.float32({src})"), ("cap", f"np.minimum({src}, 1000)"), ("floor", f"np.maximum({src}, 1e-3)")):
            out.append((pos(n), new, what))

    numeric = lambda n: isinstance(n, ast.BinOp) and not any(isinstance(x, (ast.JoinedStr, ast.List)) or (isinstance(x, ast.Constant) and isinstance(x.value, str) and "/" in x.value) for x in ast.walk(n))
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return)) and n.value is not None and numeric(n.value):
            wrap(n.value)
        elif isinstance(n, ast.Call):
            for x in n.args:
                if numeric(x):
                    wrap(x)
        elif isinstance(n, (ast.For, ast.comprehension)):
            src = raw[pos(n.iter)[0]:pos(n.iter)[1]].decode()
            out.append((pos(n.iter), f"list({src})[1:]", "first"))
            out.append((pos(n.iter), f"list({src})[:-1]", "last"))
            out.append((pos(n.iter), f"list({src})[::-1]", "reverse"))
    return raw, out


def files():
    res = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(".py") and f not in ("_version.py", "__init__.py"):
                res.append(os.path.relpath(os.path.join(d, f), SRC))
    return sorted(res)


def judge(copy, rel, new, workers):
    order = next((v for k, v in ORDER.items() if rel.endswith(k) or k in rel), "C10 C13").split()
    path = os.path.join(copy, "src/ciceroscm", rel)
    old = open(path, "rb").read()
    res = {"verdict": "SURVIVED", "by": None, "odd": []}
    try:
        with open(path, "wb") as fw:
            fw.write(new)
        for c in order:
            env = dict(os.environ, VERIF_REPO=copy, VMON_FAILFAST="1", VMON_WORKERS=str(workers), VERIF_SEED="1")
            try:
                pr = subprocess.run([sys.executable, f"{V}/run_check.py", c, "quick"], env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                res["odd"].append((c, "timeout"))
                continue
            if pr.returncode == 1 and "VIOLATION" in pr.stdout:
                res.update(verdict="killed", by=c)
                break
            if pr.returncode != 0:
                res["odd"].append((c, pr.returncode, (pr.stdout + pr.stderr)[-300:]))
    finally:
        with open(path, "wb") as fw:
            fw.write(old)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--files", default="")
    ap.add_argument("--regimes", action="store_true")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    todo = []
    for rel in files():
        if a.files and not any(x in rel for x in a.files.split(",")):
            continue
        text = open(os.path.join(SRC, rel), encoding="utf8").read()
        raw, ss = (regimes if a.regimes else sites)(text)
        for p, new, what in ss:
            todo.append((rel, raw, p, new, what))
    rnd.shuffle(todo)
    if a.regimes:  # at most two changes of one place
        seen, kept = {}, []
        for t in todo:
            k = (t[0], t[2])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2:
                kept.append(t)
        todo = kept
    # even over files
    by = {}
    for t in todo:
        by.setdefault(t[0], []).append(t)
    pick = []
    while len(pick) < a.n and any(by.values()):
        for k in list(by):
            take = max(1, len(by[k]) // 60)
            for _ in range(take):
                if by[k]:
                    pick.append(by[k].pop())
    pick = pick[:a.n]
    print(len(todo), "sites,", len(pick), "picked", flush=True)
    copies = queue.Queue()
    for j in range(a.jobs):
        c = f"/tmp/mut_{os.getpid()}_{j}"
        os.makedirs(c)
        shutil.copytree("/repo/src", f"{c}/src", ignore=shutil.ignore_patterns("__pycache__"))
        copies.put(c)

    def work(t):
        rel, raw, p, new, what = t
        mutated = raw[:p[0]] + new.encode() + raw[p[1]:]
        try:
            compile(mutated, rel, "exec")
        except SyntaxError:
            return None
        c = copies.get()
        t0 = time.time()
        try:
            r = judge(c, rel, mutated, a.workers)
        finally:
            copies.put(c)
        diff = "".join(difflib.unified_diff(raw.decode().splitlines(True), mutated.decode().splitlines(True), rel, rel, n=2))
        r.update(file=rel, what=what, diff=diff, s=round(time.time() - t0, 1))
        with open(a.out, "a", encoding="utf8") as fw:
            fw.write(json.dumps(r) + "\n")
        return r

    with cf.ThreadPoolExecutor(a.jobs) as ex:
        rs = [r for r in ex.map(work, pick) if r]
    print(len(rs), "run,", sum(r["verdict"] == "killed" for r in rs), "killed")
    while not copies.empty():
        shutil.rmtree(copies.get(), ignore_errors=True)


if __name__ == "__main__":
    main()

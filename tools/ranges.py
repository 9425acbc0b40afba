"""
Development tool: which values does each arithmetic expression of the package take?

ranges.py instrument COPY       wrap the expressions of COPY/src/ciceroscm so that their extremes are recorded
ranges.py merge DIR OUT.json    merge what processes recorded under DIR (environment variable RANGES_DIR)
ranges.py compare A.json B.json expressions B does not take further than A (both directions)
"""
import ast
import glob
import json
import os
import sys

import numpy as np

PROBE = '''
import os
import numpy as np
_D = os.environ.get("RANGES_DIR")
_M = {}


def probe(i, v):
    if _D is None:
        return v
    pid = os.getpid()
    if pid not in _M:
        _M.clear()
        m = np.memmap(os.path.join(_D, f"{pid}.bin"), dtype="f8", mode="w+", shape=(2000, 2))
        m[:, 0], m[:, 1] = np.inf, -np.inf
        _M[pid] = m
    m = _M[pid]
    try:
        if isinstance(v, (bool, str)):
            return v
        a = np.asarray(v)
        if a.dtype.kind in "fi" and a.size:
            lo, hi = float(np.nanmin(a)), float(np.nanmax(a))
            if lo < m[i, 0]:
                m[i, 0] = lo
            if hi > m[i, 1]:
                m[i, 1] = hi
    except Exception:
        pass
    return v
'''


class Wrap(ast.NodeTransformer):
    def __init__(self, rel, table):
        self.rel, self.table, self.fun = rel, table, []

    def visit_FunctionDef(self, node):
        self.fun.append(node.name)
        self.generic_visit(node)
        self.fun.pop()
        return node

    def wrap(self, node):
        if not self.fun or self.fun[-1] == "<lambda>":
            return node
        i = len(self.table)
        self.table.append([self.rel, node.lineno, self.fun[-1], ast.unparse(node)[:140]])
        return ast.copy_location(ast.Call(ast.Name("_probe", ast.Load()), [ast.Constant(i), node], []), node)

    def visit_BinOp(self, node):
        # only whole expressions, their first operands and factors in parentheses matter
        new = self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)) and not any(
                isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(node)) or "pamset" in ast.unparse(node):
            return self.wrap(new)
        return new

    def visit_Call(self, node):
        self.generic_visit(node)
        f = ast.unparse(node.func)
        if f.startswith("np.") and f[3:] in ("exp", "log", "sqrt", "mean", "einsum", "sum", "cumsum", "sign", "abs"):
            return self.wrap(node)
        return node


def instrument(copy):
    table = []
    base = os.path.join(copy, "src/ciceroscm")
    with open(os.path.join(base, "_probe_mod.py"), "w") as fw:
        fw.write(PROBE)
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if not f.endswith(".py") or f in ("_version.py", "_probe_mod.py", "make_plots.py", "__init__.py"):
                continue
            p = os.path.join(d, f)
            tree = ast.parse(open(p).read())
            Wrap(os.path.relpath(p, base), table).visit(tree)
            at = next((i for i, n in enumerate(tree.body) if isinstance(n, (ast.Import, ast.ImportFrom))), 0)
            tree.body.insert(at, ast.parse("from ciceroscm._probe_mod import probe as _probe").body[0])
            ast.fix_missing_locations(tree)
            with open(p, "w") as fw:
                fw.write(ast.unparse(tree))
    json.dump(table, open(os.path.join(copy, "ranges_table.json"), "w"))
    print(len(table), "expressions")


def merge(d, out):
    tot = None
    for f in glob.glob(d + "/*.bin"):
        m = np.fromfile(f, "f8").reshape(-1, 2)
        tot = m if tot is None else np.stack([np.minimum(tot[:, 0], m[:, 0]), np.maximum(tot[:, 1], m[:, 1])], 1)
    json.dump(tot.tolist(), open(out, "w"))


def compare(a, b, table):
    A, B, T = json.load(open(a)), json.load(open(b)), json.load(open(table))
    for i, (rel, line, fun, text) in enumerate(T):
        (a0, a1), (b0, b1) = A[i], B[i]
        if not np.isfinite(b0):
            print(f"{rel}:{line} {fun} NEVER  tests [{a0:.4g},{a1:.4g}]  {text}")
            continue
        span = max(a1 - a0, 1e-12) if np.isfinite(a0) else 0
        low, high = not b0 < a0 - 0.1 * span, not b1 > a1 + 0.1 * span
        if np.isfinite(a0) and (low or high) and a0 != a1:
            print(f"{rel}:{line} {fun} {'low ' if low else ''}{'high' if high else ''} tests [{a0:.4g},{a1:.4g}] checks [{b0:.4g},{b1:.4g}]  {text}")


if __name__ == "__main__":
    {"instrument": instrument, "merge": merge, "compare": compare}[sys.argv[1]](*sys.argv[2:])

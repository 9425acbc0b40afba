"""C17: parameter distributions yield complete, bounded, correctly routed samples."""
import copy
import glob
import json
import os

import numpy as np

from .. import mons as M

RULE = (
    "A case builds a distribution over a random set of thermal, emission and carbon parameters with random intervals, set values and "
    "options, draws members (flat, chunked, with JSON files, through the distribution run) and judges the number, indices, group and "
    "value of every parameter of every member, the strata of latin hypercube samples, mean, spread and independence of gaussian "
    "samples (six sigma), and files read back. Non-trivial: several parameters and members; distinct by method, forcing option, "
    "chunking and way of storing."
)
EXPECTED_MONITORS = ["count", "index-unique", "routing", "set-value", "latin-strata", "latin-bounds", "gaussian-mean", "gaussian-spread", "independence",
                     "chunks", "forcing-only-thermal", "json-file", "json-roundtrip", "defaults-unchanged", "default-distribution", "members-independent"]
THERMAL = ["rlamdo", "akapa", "cpi", "W", "beto", "lambda", "mixed", "ocean_efficacy", "delta_lambda_aero", "foan", "foas", "ebbeta", "threstemp", "lm",
           "ldtime"]
CARBON = ["beta_f", "mixed_carbon", "ml_w_sigmoid", "ml_fracmax", "ml_t_half", "t_half", "w_sigmoid", "t_threshold", "w_threshold", "solubility_sens",
          "solubility_limit", "rb_coef0", "rb_coef1", "rb_coef2", "rb_tim0", "rb_tim1", "rb_tim2", "rs_coef0", "rs_coef1", "rs_coef2", "rs_coef3",
          "rs_tim0", "rs_tim1", "rs_tim2"]
EMI = ["qbmb", "qo3", "qdirso2", "qindso2", "qbc", "qoc", "qh2o_ch4", "qnmvoc", "qnh3", "qnox"]
# the prior and set values that the package documents as its defaults
PRIOR = {
    "rlamdo": [5.0, 25.0], "akapa": [0.06, 0.8], "cpi": [0.161, 0.569], "W": [0.55, 2.55], "beto": [0.0, 7.0],
    "lambda": [1.85 / 3.71, 8.01 / 3.71], "mixed": [25.0, 125.0], "ocean_efficacy": [0.8, 1.2], "delta_lambda_aero": [-0.7, 3.4],
    "qbmb": [0.0, 2.0], "qo3": [0.4, 0.6], "qdirso2": [-0.006, -0.001], "qindso2": [-0.03, -0.01], "qbc": [0.004, 0.05],
    "qoc": [-0.008, -0.001], "qh2o_ch4": [0.08, 0.1], "beta_f": [0.11, 0.465], "mixed_carbon": [25.0, 125.0], "ml_w_sigmoid": [2.0, 4.0],
    "ml_fracmax": [0.3, 0.8], "ml_t_half": [-0.5, 1.0], "npp0": [55.0, 75.0], "t_half": [0.3, 0.8], "w_sigmoid": [5.0, 10.0],
    "t_threshold": [3.0, 7.0], "w_threshold": [5.0, 10.0], "solubility_sens": [0.01, 0.03], "solubility_limit": [0.4, 0.8],
    "rb_coef0": [0.3, 0.7], "rb_coef1": [0.1, 0.4], "rb_coef2": [0.1, 0.4], "rb_tim0": [1.0, 5.0], "rb_tim1": [5.0, 20.0],
    "rb_tim2": [40.0, 200.0], "rs_coef0": [0.05, 0.15], "rs_coef1": [0.5, 0.7], "rs_coef2": [0.1, 0.2], "rs_coef3": [0.1, 0.2],
    "rs_tim0": [0.5, 3.0], "rs_tim1": [5.0, 20.0], "rs_tim2": [40.0, 200.0],
}
SET_VALUES = {'threstemp': 7.0, 'lm': 40, 'ldtime': 12, 'qbmb': 0, 'qh2o_ch4': 0.091915}
GROUPS = ("pamset_udm", "pamset_emiconc", "pamset_carbon")


def group(p):
    return GROUPS[0] if p in THERMAL else GROUPS[2] if p in CARBON else GROUPS[1]


def cases(rng, tier):
    mult = 6 if tier == "quick" else 12
    out = []
    for k in range(160 * mult):
        out.append({"kind": "draw", "method": ["latin", "gaussian", None][k % 3], "forc": k % 5 == 4, "chunk": k % 4 in (1, 2), "json": k % 2 == 0,
                    "seed": int(rng.integers(1 << 31))})
    for k in range(24 * mult):
        out.append({"kind": "stat", "method": ["latin", "gaussian"][k % 2], "seed": int(rng.integers(1 << 31)), "cost": 2})
    for k in range(12 * mult):
        out.append({"kind": "default", "seed": int(rng.integers(1 << 31))})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    np.random.seed(case["seed"] % (1 << 32))
    {"draw": draw, "stat": stat, "default": default}[case["kind"]](case, mon, rng)


def interval(rng):
    lo = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 3))
    return [lo, lo + float(10 ** rng.uniform(-3, 3))]


def build(rng, method, forc, most=12):
    names = list(rng.permutation(THERMAL + CARBON + EMI))
    n = int(rng.integers(2, most))
    dist = {str(p): interval(rng) for p in names[:n]}
    if not set(dist) & set(THERMAL):
        dist["lambda"] = interval(rng)
    fixed = {}
    for p in names[n:n + int(rng.integers(0, 6))]:
        if p not in dist:
            fixed[str(p)] = float(rng.normal()) if rng.random() < 0.8 else int(rng.integers(1, 60))
    if rng.random() < 0.4:  # a set value wins over an interval
        p = str(rng.choice(list(dist)))
        if len([q for q in dist if q in THERMAL]) > 1 or p not in THERMAL:
            fixed[p] = 0.25
    opts = {}
    if method is not None:
        opts["method"] = method
    if forc or rng.random() < 0.3:
        opts["forc"] = forc
    return dist, fixed, opts


def sampled(dist, fixed, forc):
    return [p for p in dist if p not in fixed and (not forc or p in THERMAL)]


def judge(mon, members, dist, fixed, forc, ctx):
    names = sampled(dist, fixed, forc)
    for m in members:
        mon.check("routing", set(m) == set(GROUPS) | {"Index"}, f"{ctx} member keys {sorted(m)}")
        for g in GROUPS:
            want = {p for p in names + list(fixed) if group(p) == g}
            got = set(m.get(g, {}))
            # thermal parameters are all a forcing run takes; what else is set does no harm
            mon.check("routing", got == want, f"{ctx} {g} has {sorted(got)} expected {sorted(want)}")
            for p in fixed:
                if group(p) == g:
                    mon.check("set-value", p in m[g] and m[g][p] == fixed[p], f"{ctx} set {p}={fixed[p]} got {m[g].get(p)}")
        if forc:
            extra = [p for g in GROUPS[1:] for p in m.get(g, {}) if p not in fixed]
            mon.check("forcing-only-thermal", not extra, f"{ctx} sampled {extra}")


def values(members, p):
    return np.array([m[group(p)][p] for m in members], float)


def strata(mon, members, dist, names, ctx):
    n = len(members)
    for p in names:
        lo, hi = dist[p]
        u = (np.sort(values(members, p)) - lo) / (hi - lo)
        tol = 1e-9 + 1e-12 * (abs(lo) + abs(hi)) / (hi - lo)
        mon.check("latin-bounds", u.min() >= -tol and u.max() <= 1 + tol, f"{ctx} {p} outside {dist[p]}")
        k = np.arange(n)
        mon.check("latin-strata", bool(((u >= k / n - tol) & (u <= (k + 1) / n + tol)).all()), f"{ctx} {p} strata {u[:8] * n}")


def draw(case, mon, rng):
    from ciceroscm.parallel._configdistro import _ConfigDistro
    from ciceroscm.parallel.distributionrun import DistributionRun

    forc = case["forc"]
    dist, fixed, opts = build(rng, case["method"], forc)
    given = M.snapshot([dist, fixed])
    cd = _ConfigDistro(distro_dict=dist, setvalues=fixed, options=dict(opts))
    n = int(rng.choice([1, 2, 3, 7, 20, 41, 130, 260]))
    pre = str(rng.choice(["", "run_", "x"]))
    metas = [None, None, None, {"who": "verif", "n": n}, {"who": {"nested": [1, None, "ø"]}, "": 0.1}, {}, "text", [1, 2.5]]
    meta = metas[int(rng.integers(len(metas)))]
    ctx = f"{opts} {sorted(dist)} set {sorted(fixed)} n={n}"
    kw = {"indexer_pre": pre} if pre or rng.random() < 0.5 else {}
    fn = os.path.join("cfgs", "members.json")
    os.makedirs("cfgs", exist_ok=True)
    if case["json"]:
        kw["json_fname"] = fn
        if meta is not None:
            kw["meta_info"] = meta
    if case["chunk"]:
        size = int(rng.choice([1, 2, 5, 10, 11, 12, 23, max(n - 1, 1), n]))
        res = cd.make_config_lists(n, max_chunk_size=size, **kw)
        ctx += f" chunks of {size}"
        if size > n:
            chunks = [res]
        else:
            chunks = res
            mon.check("chunks", all(isinstance(c, list) for c in chunks) and [len(c) for c in chunks] == [min(size, n - i) for i in range(0, n, size)],
                      f"{ctx} sizes {[len(c) for c in chunks]}")
    else:
        size = None
        chunks = [cd.make_config_lists(n, **kw)]
    members = [m for c in chunks for m in c]
    mon.check("count", len(members) == n, f"{ctx} {len(members)} members")
    idx = [m["Index"] for m in members]
    mon.check("index-unique", len(set(idx)) == n and all(isinstance(i, str) and i.startswith(pre) for i in idx), f"{ctx} indices {idx[:6]}")
    judge(mon, members, dist, fixed, forc, ctx)
    names = sampled(dist, fixed, forc)
    if opts.get("method", "latin") == "latin" and len(members) == n:
        strata(mon, members, dist, names, ctx)
    mon.check("defaults-unchanged", M.unchanged(given, M.snapshot([dist, fixed])) and M.snapshot([dist, fixed]) == given,
              f"{ctx} given dictionaries changed")
    if case["json"]:
        files = sorted(glob.glob("cfgs/*.json"))
        mon.check("json-file", len(files) == len(chunks), f"{ctx} files {files}")
        back = [json.load(open(f, encoding="utf8")) for f in files]
        for f, b in zip(files, back):
            if meta is not None:
                mon.check("json-file", isinstance(b, dict) and b.get("meta_info") == meta, f"{ctx} meta of {f}")
        got = [b["configurations"] if isinstance(b, dict) else b for b in back]
        mon.check("json-file", sorted(map(repr, got)) == sorted(map(repr, plain(chunks))), f"{ctx} configurations in files")
        for f, b, g in zip(files, back, got):
            d = DistributionRun(None, json_file_name=f)
            mon.check("json-roundtrip", d.cfgs == g and d.meta_info == (b.get("meta_info") if isinstance(b, dict) else None), f"{ctx} read {f}")
            for new in (None, {"other": [1, 2]}, {}):
                out = "again.json"
                if new is None:
                    d.write_configs_to_json(out)
                else:
                    d.write_configs_to_json(out, meta_info=new)
                e = DistributionRun(cd, json_file_name=out, numvalues=3)
                mon.check("json-roundtrip", e.cfgs == g and e.meta_info == (d.meta_info if new is None else new), f"{ctx} written and read again, meta {new}")
    else:
        d = DistributionRun(cd, indexer_pre=pre, numvalues=n)
        mon.check("count", len(d.cfgs) == n, f"{ctx} distribution run has {len(d.cfgs)}")
        mon.check("index-unique", len({m["Index"] for m in d.cfgs}) == n, f"{ctx} indices of distribution run")
        judge(mon, d.cfgs, dist, fixed, forc, f"{ctx} distribution run")
        d.write_configs_to_json("w.json", **({"meta_info": meta} if meta is not None else {}))
        e = DistributionRun(None, json_file_name="w.json")
        mon.check("json-roundtrip", e.cfgs == plain(d.cfgs) and e.meta_info == meta, f"{ctx} distribution run written and read")
    if n > 1:
        other = copy.deepcopy(members[1])
        for g in GROUPS:
            members[0][g]["mixed"] = -1.0
        mon.check("members-independent", members[1] == other, f"{ctx} members share parameters")
    mon.sig("draw", opts.get("method"), forc, size is not None, case["json"], meta is not None, n)


def plain(obj):
    return json.loads(json.dumps(obj))


def stat(case, mon, rng):
    from ciceroscm.parallel._configdistro import _ConfigDistro

    dist, fixed, opts = build(rng, case["method"], bool(rng.random() < 0.2), 8)
    cd = _ConfigDistro(distro_dict=dist, setvalues=fixed, options=opts)
    n = 1500
    members = cd.make_config_lists(n)
    names = sampled(dist, fixed, opts.get("forc", False))
    ctx = f"{opts} {dist}"
    X = np.array([values(members, p) for p in names])
    for i, p in enumerate(names):
        lo, hi = dist[p]
        mid, half = (lo + hi) / 2, (hi - lo) / 2
        x = X[i]
        if case["method"] == "gaussian":
            mon.check("gaussian-mean", abs(x.mean() - mid) < 6.5 * half / np.sqrt(n), f"{ctx} {p} mean {x.mean()} expected {mid}")
            mon.check("gaussian-spread", abs(x.std() / half - 1) < 6.5 / np.sqrt(2 * n), f"{ctx} {p} spread {x.std()} expected {half}")
            z = (x - mid) / half
            mon.check("gaussian-spread", abs((np.abs(z) < 1).mean() - 0.6827) < 6.5 * 0.4655 / np.sqrt(n), f"{ctx} {p} share within one {np.mean(np.abs(z) < 1)}")
    if case["method"] == "latin":
        strata(mon, members, dist, names, ctx)
    if len(names) > 1:
        c = np.corrcoef(X)[np.triu_indices(len(names), 1)]
        mon.check("independence", np.abs(c).max() < 6.5 / np.sqrt(n), f"{ctx} correlation {np.abs(c).max()}")
    # order of drawing is not the order of the parameter values
    c = np.corrcoef(np.arange(n), X[0])[0, 1]
    mon.check("independence", abs(c) < 6.5 / np.sqrt(n), f"{ctx} member order and {names[0]} correlation {c}")
    mon.sig("stat", case["method"], len(names))


def default(case, mon, rng):
    """Default prior and set values, again after other uses."""
    from ciceroscm.parallel._configdistro import _ConfigDistro
    from ciceroscm.parallel import _configdistro as mod

    before = M.snapshot([mod.prior_flat, mod.set_values_default])
    forc = bool(rng.random() < 0.4)
    opts = {"forc": True} if forc else (None if rng.random() < 0.5 else {})
    if rng.random() < 0.5:
        _ConfigDistro(setvalues={"lm": 33}, options={"method": "gaussian", "forc": not forc}).make_config_lists(3)
    cd = _ConfigDistro(options=opts)
    members = cd.make_config_lists(5)
    prior, fixed = dict(mod.prior_flat), dict(mod.set_values_default)
    names = [p for p in prior if p not in fixed and (not forc or p in THERMAL)]
    for m in members:
        for p in names:
            if p in THERMAL + CARBON + EMI:
                lo, hi = prior[p]
                v = m[group(p)].get(p)
                mon.check("default-distribution", v is not None and lo <= v <= hi, f"forc={forc} {p} {v} not in {prior[p]}")
        for p, v in fixed.items():
            mon.check("default-distribution", m[group(p)].get(p) == v, f"forc={forc} set {p} {m[group(p)].get(p)} not {v}")
        if forc:
            extra = [p for g in GROUPS[1:] for p in m[g] if p not in fixed]
            mon.check("forcing-only-thermal", not extra, f"default prior sampled {extra}")
    many = cd.make_config_lists(40)
    want = [p for p in PRIOR if p not in SET_VALUES and (not forc or p in THERMAL)]
    lost = [p for p in want if p not in many[0][group(p)]]
    mon.check("default-distribution", not lost, f"forc={forc} default prior without {lost}")
    strata(mon, many, PRIOR, [p for p in want if p not in lost], f"default prior forc={forc}")
    for p, v in SET_VALUES.items():
        mon.check("default-distribution", all(m[group(p)].get(p) == v for m in many), f"forc={forc} default {p} {many[0][group(p)].get(p)} not {v}")
    mon.check("defaults-unchanged", M.snapshot([mod.prior_flat, mod.set_values_default]) == before, "default prior or set values changed")
    mon.sig("default", forc, str(opts))

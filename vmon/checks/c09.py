"""C09: each forcing component follows its documented formula."""
import numpy as np

from .. import data as D
from .. import mons as M
from .. import ref as R

RULE = (
    "A case is an emission or concentration run with random gas table (efficiencies, adjustment factors, extra gases, regional "
    "aerosols), emissions, concentrations, forcing parameters, reference year and land use series. Every component of every year "
    "is compared with an independent formula evaluated on the run's own concentrations and the given emissions. Non-trivial: "
    "component not identically zero; distinct by component, mode and kind of gas table."
)
EXPECTED_MONITORS = ["component", "first-year-zero", "landuse", "components-complete", "regional-replaces", "strat-o3-lag"]


def cases(rng, tier):
    mult = 3 if tier == "quick" else 10
    out = []
    for k in range(60 * mult):
        out.append({"kind": "run", "mode": ["emis", "conc"][k % 3 == 2], "gas": ["wmo", "new", "v1", "ar6"][k % 4], "regional": k % 5 == 0,
                    "long": k % 30 == 7, "seed": int(rng.integers(1 << 31)), "cost": 10 if k % 30 == 7 else 2})
    for k in range(16 * mult):
        out.append({"kind": "run", "mode": ["conc", "conc", "emis"][k % 3], "gas": ["wmo", "new", "v1", "ar6"][k % 4], "regional": k % 5 == 0,
                    "long": False, "wild": True, "seed": int(rng.integers(1 << 31)), "cost": 2})
    for k in range(8 * mult):
        out.append({"kind": "regional", "seed": int(rng.integers(1 << 31)), "cost": 3})
    for k in range(8 * mult):
        out.append({"kind": "strat", "seed": int(rng.integers(1 << 31)), "cost": 3})
    return out


def judge(mon, s, res, ctx, name="component"):
    conc = D.conc_table(res)
    exp = M.ref_forc(s, conc)
    got = D.forc_table(res)
    mon.check("components-complete", set(got) == set(exp), f"{ctx} components differ {sorted(set(got) ^ set(exp))[:6]}")
    pert = set()
    if s.pert_forc is not None:
        pert = {("SO4_DIR" if c == "SO2" else c) for c, y in zip(s.pert_forc["component"], s.pert_forc["year"]) if y == s.nystart}
    for c in sorted(set(got) & set(exp)):
        mon.close(name, got[c], exp[c], 1e-8, 1e-11, f"{ctx} {c}")
        if c == "LANDUSE":
            if s.pert_forc is None:
                mon.close("landuse", got[c], s.t_luc(), 1e-12, 0, ctx)
        elif c not in pert:
            mon.check("first-year-zero", abs(got[c][0]) < 1e-13, f"{ctx} {c} first year {got[c][0]}")
    return got


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] != "run":
        return {"regional": regional, "strat": strat}[case["kind"]](case, mon, rng)
    s = D.rand_setup(rng, case["mode"], gas=case["gas"], regional=case["regional"], long=case["long"],
                     perturb=bool(rng.random() < 0.25), pams=bool(rng.random() < 0.85))
    if case.get("wild"):
        D.wild(rng, s)
    cscm, res = D.run(s)
    ctx = f"{s.describe()} gas={case['gas']} reg={case['regional']} {s.emi}"
    got = judge(mon, s, res, ctx)
    if rng.random() < 0.5:  # other parameters in a second run of the instance
        s.emi = D.rand_emi(rng, D.ok_refs(s))
        if not 2000 in s.years:
            s.emi["lifetime_mode"] = "WIGLEY"
        _, res = D.run(s, cscm)
        judge(mon, s, res, "second run " + ctx)
    for c, v in got.items():
        if np.abs(v).max() > 0:
            mon.sig(c, case["mode"], "regional" if case["regional"] else "global", "wild" if case.get("wild") else "")
    mon.note = {"run": s.describe(), "components": len(got)}


def regional(case, mon, rng):
    """With regional rows the global direct effect is gone and the regions take over, run after run."""
    s = D.rand_setup(rng, "emis", regional=True)
    which = [a for a in ("BC", "OC", "SO2") if rng.random() < 0.7] or ["BC"]
    drop = [g for g in s.gas.index if "_" in g and g.split("_")[0] in ("BC", "OC", "SO2") and g.split("_")[1] in D.REGIONS
            and g.split("_")[0] not in which]
    s.gas = s.gas.drop(index=drop)
    for a in which:
        s.gas.at[a, "ALPHA"] = 0.0
    cscm = None
    for k in range(2):
        s.emi.update(qbc=float(rng.uniform(0.01, 0.1)), qoc=float(rng.uniform(-0.02, -0.001)), qdirso2=float(rng.uniform(-0.01, -0.001)))
        cscm, res = D.run(s, cscm)
        got = judge(mon, s, res, f"{s.describe()} regions of {which} run {k}")
        for a in ("BC", "OC", "SO2"):
            col = "SO4_DIR" if a == "SO2" else a
            if a in which:
                mon.check("regional-replaces", bool((got[col] == 0).all()), f"{s.describe()} global {a} {got[col][-3:]} besides regions (run {k})")
            else:
                mon.check("regional-replaces", bool(np.abs(got[col]).max() > 0), f"{s.describe()} {a} without regions is zero (run {k})")
        mon.sig("regional", *which)


def strat(case, mon, rng):
    """A jump of one halogenated gas reaches stratospheric ozone three years later and nothing else differs."""
    s = D.rand_setup(rng, "conc", regional=False, perturb=False)
    s.frame_pad, s.deliver = {}, {}
    cl, br = R.halogens(s.gas.index)
    name = str(rng.choice(sorted(set(cl) | set(br))))
    _, a = D.run(s)
    year = int(rng.choice(s.years[1:]))
    s.conc.loc[year:, name] += float(rng.uniform(50, 300))
    _, b = D.run(s)
    fa, fb = D.forc_table(a), D.forc_table(b)
    i = year - s.nystart
    d = np.abs(fb["STRAT_O3"] - fa["STRAT_O3"])
    mon.check("strat-o3-lag", bool((d[:i + 3] == 0).all()), f"{s.describe()} {name} jump in {year} changes ozone before three years {d[:i + 3]}")
    if i + 3 < len(d):
        mon.check("strat-o3-lag", bool((d[i + 3:] > 0).all()), f"{s.describe()} {name} jump in {year} has no effect {d[i:i + 5]}")
    for c in fa:
        if c not in ("STRAT_O3", name):
            mon.same("component", fb[c], fa[c], f"{s.describe()} {c} changed by {name}")
    judge(mon, s, b, s.describe())
    mon.sig("strat", name)

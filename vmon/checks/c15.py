"""C15: perturbations are applied exactly once to the named component and year."""
import copy

import numpy as np
import pandas as pd

from .. import data as D
from .. import mons as M
from .. import ref as R

RULE = (
    "Emission cases run with a perturbation table (file or data, shuffled, duplicated or split rows, first and last year included) and "
    "compare every output with a run whose emission table already contains the amounts. Forcing cases compare each component "
    "with the unperturbed run (concentration runs) or with the forcing of the recorded concentrations (emission runs), total and "
    "recorded hemispheric forcing with the weighted amounts, and temperatures with a reference thermal model. Every instance is run "
    "again to see that nothing accumulates. Non-trivial: at least one perturbation inside the window; distinct by kind, mode, component."
)
EXPECTED_MONITORS = ["emission-equals-table", "perturbed-table", "emissions-reported", "forcing-component", "forcing-total", "forcing-hemispheres", "temperature", "order",
                     "no-accumulation", "shared-data"]


def cases(rng, tier):
    mult = 2 if tier == "quick" else 10
    out = []
    for k in range(36 * mult):
        out.append({"kind": "em", "mode": ["emis", "emis", "conc"][k % 3], "regional": k % 4 == 3, "seed": int(rng.integers(1 << 31)), "cost": 5})
    for k in range(40 * mult):
        out.append({"kind": "forc", "mode": ["conc", "emis"][k % 2], "regional": k % 4 == 3, "seed": int(rng.integers(1 << 31)), "cost": 5})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"em": emission, "forc": forcing}[case["kind"]](case, mon, rng)


def years_for(rng, s, n):
    y = rng.choice(s.years, n)
    y[0], y[1] = s.years[0], s.years[-1]
    if n > 3 and s.nystart <= s.emstart <= s.nyend:
        y[2] = s.emstart
    return [int(v) for v in y]


def split(rng, df, col):
    """Same amounts in other rows: some split in two, all in another order."""
    rows = []
    for r in df.to_dict("records"):
        if rng.random() < 0.4:
            a = float(rng.uniform(-1, 2)) * r[col]
            rows += [{**r, col: a}, {**r, col: r[col] - a}]
        else:
            rows.append(r)
    out = pd.DataFrame(rows)[list(df.columns)]
    return out.iloc[rng.permutation(len(out))].reset_index(drop=True)


def near(mon, name, got, exp, ctx):
    mon.check(name, set(got) == set(exp), lambda: f"{ctx} outputs differ {sorted(map(str, set(got) ^ set(exp)))[:5]}")
    for k in exp:
        if k in got:
            mon.close(name, got[k], exp[k], 1e-8, 1e-10, f"{ctx} {k}")


def emission(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], regional=case["regional"])
    names = [c for c in s.emis.columns if c in s.gas.index or c.startswith("CO2_")]
    n = int(rng.integers(4, 12))
    comps = [str(c) for c in rng.choice(names, n)]
    comps[: 2] = [str(rng.choice(["CO2", "CO2_FF", "CO2_AFOLU"])), str(rng.choice(["CH4", "SO2", "NOx", "CFC-12"]))]
    scale = [max(float(s.emis[("CO2_FF" if c == "CO2" else c)].abs().mean()), 0.01) for c in comps]
    df = pd.DataFrame({"component": comps, "year": years_for(rng, s, n), "emission": [float(x * rng.uniform(-0.1, 0.8)) for x in scale]})
    df = pd.concat([df, df.iloc[[0, -1]]], ignore_index=True)  # same component and year again
    df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
    s.pert_em = df
    cscm, res = D.run(s)
    first = M.flat(res)
    ctx = f"{s.describe()} {df.to_dict('list')}"
    t = copy.deepcopy(s)
    t.pert_em, t.emis = None, s.t_emis()
    _, r2 = D.run(t)
    exp = M.flat(r2)
    near(mon, "emission-equals-table", first, exp, ctx)
    em = res["emissions"]
    for c in em.columns:
        src = {"CO2": None}.get(c, c)
        if src in t.emis.columns:
            mon.close("emissions-reported", em[c], t.emis.loc[s.years, src], 1e-9, 1e-12, f"{ctx} reported {c}")
    table(mon, rng, s, df, ctx)
    _, res = D.run(s, cscm)
    M.same_results(mon, "no-accumulation", M.flat(res), first, f"{ctx} second run")
    u = copy.deepcopy(s)
    u.pert_em = split(rng, df, "emission")
    for key in ("perturb_em",):
        u.deliver[key] = str(rng.choice(["file", "data"]))
    _, r3 = D.run(u)
    near(mon, "order", M.flat(r3), first, f"{ctx} other order")
    if s.how("perturb_em") == "data" and s.how("emissions") == "data":
        shared(mon, s, first, ctx)
    for c in sorted(set(comps)):
        mon.sig("em", case["mode"], c)
    mon.note = {"run": s.describe(), "perturbed": comps}


def table(mon, rng, s, df, ctx):
    """The perturbed table itself: each amount in its own column and row, nothing else."""
    from ciceroscm.input_handler import InputHandler
    from ciceroscm.perturbations import perturb_emissions

    handler = InputHandler({"nystart": s.nystart, "nyend": s.nyend, "emstart": s.emstart, "perturb_em_data": df.copy(),
                            "forc_data": np.zeros(3)})
    em = s.emis.loc[s.years].copy()
    if rng.random() < 0.3:  # a table with a column for all CO2
        em["CO2"] = em["CO2_FF"] + em["CO2_AFOLU"]
    exp = em.copy()
    for r in df.to_dict("records"):
        c = "CO2_FF" if r["component"] == "CO2" and "CO2" not in em.columns else r["component"]
        exp.loc[r["year"], c] += r["emission"]
    out = perturb_emissions(handler, em)
    for c in exp.columns:
        mon.close("perturbed-table", out[c], exp[c], 1e-10, 1e-13, f"{ctx} table {c}")


def shared(mon, s, first, ctx):
    """Two instances built from the same configuration objects."""
    from ciceroscm import CICEROSCM

    cfg = s.cfg()
    for i in range(2):
        _, r = D.run(s, CICEROSCM(cfg))
        M.same_results(mon, "shared-data", M.flat(r), first, f"{ctx} instance {i} of shared data")


def out_name(c):
    return "SO4_DIR" if c == "SO2" else c


def forcing(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], regional=case["regional"])
    base_s = copy.deepcopy(s)
    _, base = D.run(base_s)
    b = D.forc_table(base)
    names = [c for c in s.gas.index if out_name(c) in b]
    n = int(rng.integers(4, 14))
    comps = [str(c) for c in rng.choice(names, n)]
    comps[:4] = [str(rng.choice(["CO2", "CH4", "N2O", "OTHER"])), str(rng.choice(["SO2", "SO4_IND", "BC", "OC", "BMB_AEROS"])),
                 str(rng.choice(["CFC-11", "SF6", "HFC134a", "STRAT_O3"])), str(rng.choice(["TROP_O3", "LANDUSE", "STRAT_H2O"]))]
    if case["regional"]:
        comps[-1] = str(rng.choice([c for c in names if c.endswith(D.REGIONS)]))
    df = pd.DataFrame({"component": comps, "year": years_for(rng, s, n), "forcing": rng.uniform(-0.6, 0.6, n)})
    df = pd.concat([df, df.iloc[[0, 2, 2]]], ignore_index=True)
    df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
    s.pert_forc = df
    cscm = D.make(s)
    with M.record_thermal() as calls:
        _, res = D.run(s, cscm)
    first = M.flat(res)
    ctx = f"{s.describe()} {df.to_dict('list')}"
    got = D.forc_table(res)
    delta = {c: np.zeros(len(s.years)) for c in b}
    for r in df.to_dict("records"):
        delta[out_name(r["component"])][r["year"] - s.nystart] += r["forcing"]
    if case["mode"] == "conc":
        exp = {c: b[c] + delta[c] for c in b}
    else:
        exp = M.ref_forc(s, D.conc_table(res), pert=False)
        exp = {c: exp[c] + delta[c] for c in exp}
    mon.check("forcing-component", set(got) == set(b), f"{ctx} components {sorted(set(got) ^ set(b))}")
    for c in exp:
        if c in got:
            mon.close("forcing-component", got[c], exp[c], 1e-8, 1e-10, f"{ctx} {c}")
    sun = s.t_sun()
    tot, nh, sh = R.hemispheres(exp, sun)
    mon.close("forcing-total", res["Total_forcing"], tot, 1e-8, 1e-9, ctx)
    mon.close("forcing-total", res["forcing"]["Total_forcing"], tot, 1e-8, 1e-9, ctx)
    if len(calls.fn) == len(s.years):
        mon.close("forcing-hemispheres", calls.fn, nh, 1e-8, 1e-9, f"{ctx} north")
        mon.close("forcing-hemispheres", calls.fs, sh, 1e-8, 1e-9, f"{ctx} south")
    th = R.run_thermal(s.thermal, s.udm, nh, sh, *s.t_volc())
    for k in ("dT_glob", "dT_NH", "dT_SH", "OHCTOT"):
        if k in th and k in res:
            mon.close("temperature", res[k], th[k], 1e-6, 1e-8, f"{ctx} {k}")
    for _ in range(2):
        _, res = D.run(s, cscm)
        M.same_results(mon, "no-accumulation", M.flat(res), first, f"{ctx} run again")
    u = copy.deepcopy(s)
    u.pert_forc = split(rng, df, "forcing")
    u.deliver["perturb_forc"] = str(rng.choice(["file", "data"]))
    _, r3 = D.run(u)
    near(mon, "order", M.flat(r3), first, f"{ctx} other order")
    if s.how("perturb_forc") == "data":
        shared(mon, s, first, ctx)
    for c in sorted(set(comps)):
        mon.sig("forc", case["mode"], c)
    mon.note = {"run": s.describe(), "perturbed": comps}

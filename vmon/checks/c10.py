"""C10: total forcing is the sum of components and is what warms the hemispheres."""
import numpy as np
import pandas as pd

from .. import data as D
from .. import hist as H
from .. import mons as M
from .. import ref as R

RULE = (
    "A case is an emission, concentration or forcing run; total forcing is compared with the sum of the reported components, "
    "the forcing handed to each hemisphere (recorded at the thermal model) with the weighted sum plus solar, and the resulting "
    "temperatures with a reference thermal model driven by that sum (so the judgement does not hang on the recorder). "
    "Non-trivial: components of different weight present; distinct by mode, selected component, thermal model and file form."
)
EXPECTED_MONITORS = ["total-is-sum", "hemispheres", "temperature", "mean-is-total-plus-solar", "just-one", "forcing-run", "forcing-temperature"]
ONES = ["CO2", "CH4", "N2O", "SO2", "SO4_IND", "BC", "OC", "TROP_O3", "STRAT_H2O", "LANDUSE", "BMB_AEROS", "OTHER", "NOx", "NH3", "NMVOC",
        "BMB_AEROS_OC", "BMB_AEROS_BC"]
FORMS = ["total+hemi", "hemi", "agents", "frame", "ndarray", "column-file", "agents+w", "hemi-upper"]


def cases(rng, tier):
    mult = 3 if tier == "quick" else 10
    out = []
    for k in range(48 * mult):
        out.append({"kind": "run", "mode": ["emis", "conc"][k % 3 == 2], "thermal": ["default", "twolayer"][k % 4 == 1], "pert": k % 3 == 0,
                    "sv": k % 2, "long": k % 24 == 3, "seed": int(rng.integers(1 << 31)), "cost": 10 if k % 24 == 3 else 3})
    for k in range(12 * mult):
        out.append({"kind": "run", "mode": ["conc", "emis"][k % 2], "thermal": ["default", "twolayer"][k % 3 == 1], "pert": k % 4 == 0,
                    "sv": k % 2, "long": False, "wild": True, "seed": int(rng.integers(1 << 31)), "cost": 3})
    for k in range(24 * mult):
        out.append({"kind": "one", "mode": ["emis", "conc"][k % 2], "one": ONES[k % len(ONES)], "thermal": ["default", "twolayer"][k % 3 == 1],
                    "seed": int(rng.integers(1 << 31)), "cost": 4})
    for k in range(48 * mult):
        out.append({"kind": "forc", "form": FORMS[k % len(FORMS)], "thermal": ["default", "twolayer"][(k // len(FORMS)) % 2], "sv": (k // 2) % 2,
                    "seed": int(rng.integers(1 << 31))})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"run": model_run, "one": just_one, "forc": forc_run}[case["kind"]](case, mon, rng)


def thermal(mon, name, kind, udm, res, fn, fs, vn, vs, ctx):
    exp = R.run_thermal(kind, udm, fn, fs, vn, vs)
    for k in ("dT_glob", "dT_NH", "dT_SH", "dT_NH_air", "dT_SHsea", "RIB_glob", "OHCTOT"):
        if k in exp and k in res:
            mon.close(name, res[k], exp[k], 1e-6, 1e-9, f"{ctx} {k}")


def judge(mon, s, res, calls, ctx, one=None):
    forc = D.forc_table(res)
    sun = s.t_sun()
    tot, nh, sh = R.hemispheres(forc, sun, one)
    name = "just-one" if one else "total-is-sum"
    mon.close(name, res["forcing"]["Total_forcing"], tot, 1e-9, 1e-11, f"{ctx} total in table")
    mon.close(name, res["Total_forcing"], tot, 1e-9, 1e-11, f"{ctx} total in results")
    if len(calls.fn) == len(s.years):
        mon.close("just-one" if one else "hemispheres", calls.fn, nh, 1e-9, 1e-11, f"{ctx} north")
        mon.close("just-one" if one else "hemispheres", calls.fs, sh, 1e-9, 1e-11, f"{ctx} south")
        mean = (np.array(calls.fn) + np.array(calls.fs)) / 2
        mon.close("mean-is-total-plus-solar", mean, np.asarray(res["Total_forcing"]) + sun, 1e-9, 1e-11, ctx)
    vn, vs = s.t_volc()
    thermal(mon, "temperature", s.thermal, s.udm, res, nh, sh, vn, vs, ctx)
    return forc


def model_run(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], thermal=case["thermal"], perturb=case["pert"], sunvolc=case["sv"], long=case["long"])
    if case.get("wild"):
        D.wild(rng, s)
    with M.record_thermal() as calls:
        _, res = D.run(s)
    forc = judge(mon, s, res, calls, s.describe())
    active = sorted({R.hemi_weight(c) for c, v in forc.items() if np.abs(v).max() > 0})
    mon.sig("run", case["mode"], s.thermal, case["pert"], case["sv"], len(active), bool(case.get("wild")))
    mon.note = {"run": s.describe(), "weights_active": active, "thermal_steps_seen": len(calls.fn)}


def just_one(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], thermal=case["thermal"], perturb=bool(rng.random() < 0.5), regional=False)
    one = case["one"]
    if one not in s.gas.index or s.gas.at[one, "CONC_UNIT"] != "-" and one not in R.MAIN:
        one = "CO2"
    s.emi["just_one"] = one
    cscm = D.make(s)
    with M.record_thermal() as calls:
        _, res = D.run(s, cscm)
    judge(mon, s, res, calls, f"{s.describe()} just {one}", one)
    # next run without selection uses everything again
    s.emi.pop("just_one")
    with M.record_thermal() as calls:
        _, res = D.run(s, cscm)
    judge(mon, s, res, calls, f"{s.describe()} after just {one}")
    mon.sig("one", one, case["mode"], s.thermal)


def forc_run(case, mon, rng):
    from ciceroscm import CICEROSCM

    n = int(rng.integers(6, 60))
    y0 = int(rng.integers(1750, 2100))
    years = list(range(y0, y0 + n))
    before, after = (int(rng.choice([0, 0, 3, 25])), int(rng.choice([0, 0, 4, 30])))
    full = list(range(y0 - before, y0 + n + after))
    form = case["form"]
    fn, fs = H.history(rng, str(rng.choice(["ramp", "sine", "walk", "asym", "noise"])), len(full))
    tot = (fn + fs) / 2
    cols = [c for c in ("CO2", "CH4", "BC", "SO4_IND", "OTHER", "TROP_O3") if rng.random() < 0.6] or ["CO2", "BC"]
    cfg = {"nystart": y0, "nyend": years[-1], "thermal_model": case["thermal"]}
    df = None
    if form in ("total+hemi", "frame"):
        tot = tot + rng.normal(size=len(full)) * 0.1  # the given total is reported as given
        df = pd.DataFrame({"total": tot, "FORC_NH": fn, "FORC_SH": fs}, index=full)
    elif form in ("hemi", "hemi-upper"):
        df = pd.DataFrame({"FORC_SH": fs, "FORC_NH": fn}, index=full)
    elif form in ("agents", "agents+w"):
        df = pd.DataFrame({c: rng.normal(size=len(full)) for c in cols}, index=full)
        tot = df.sum(axis=1).to_numpy()
        fn = fs = tot
        if form == "agents+w":
            df["w_aero"] = rng.uniform(0, 1, len(full))
    if form == "frame":
        cfg["forc_data"] = df
    elif df is not None:
        df.index.name = "Year" if form == "hemi-upper" else "year"
        df.to_csv("forc.csv", float_format="%.17g")
        cfg["forc_file"] = "forc.csv"
    else:
        fn = fs = tot
        a = slice(before, before + n + after)
        if form == "ndarray":
            cfg["forc_data"] = tot[a].copy()
        else:
            np.savetxt("forc.txt", tot[a], fmt="%.17g")
            cfg["forc_file"] = "forc.txt"
    sl = slice(before, before + n)
    fn, fs, tot = np.array(fn)[sl], np.array(fs)[sl], np.array(tot)[sl]
    s = D.Setup(nystart=y0, nyend=years[-1], sunvolc=case["sv"])
    if case["sv"]:
        s.sun = D.series_frame(rng, 1, 0.3, "sun")
        if rng.random() < 0.5:
            s.volc_n, s.volc_s = D.series_frame(rng, 12), D.series_frame(rng, 4)
        for key in ("rf_sun", "rf_volc_n", "rf_volc_s"):
            s.deliver[key] = str(rng.choice(["file", "data"]))
        cfg["sunvolc"] = 1
        s.sunvolc_cfg(cfg, ".")
    if rng.random() < 0.4:
        s.luc = D.series_frame(rng, 1, 0.3, "luc")  # must not matter in forcing runs
        s.sunvolc_cfg(cfg, ".")
    udm = D.rand_two(rng) if case["thermal"] == "twolayer" else D.rand_udm(rng)
    cscm = CICEROSCM(cfg)
    with M.record_thermal() as calls:
        cscm._run({"results_as_dict": True}, pamset_udm=dict(udm))
    res = cscm.results
    sun = s.t_sun()
    ctx = f"{form} {case['thermal']} {y0}+{n} file starts {before} earlier sv{case['sv']}"
    mon.close("forcing-run", res["Total_forcing"], tot + sun, 1e-10, 1e-12, f"{ctx} total")
    if len(calls.fn) == n:
        mon.close("forcing-run", calls.fn, fn + sun, 1e-10, 1e-12, f"{ctx} north")
        mon.close("forcing-run", calls.fs, fs + sun, 1e-10, 1e-12, f"{ctx} south")
    vn, vs = s.t_volc()
    thermal(mon, "forcing-temperature", case["thermal"], udm, res, fn + sun, fs + sun, vn, vs, ctx)
    mon.sig("forc", form, case["thermal"], case["sv"], before > 0)

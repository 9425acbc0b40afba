"""C04: feedback follows the aerosol share of forcing each year."""
import numpy as np
import pandas as pd

from .. import data as D
from .. import hist as H
from .. import mons as M
from .. import ref as R

RULE = (
    "A case is a run (forcing file or table of agents, emission or concentration run, or stand-alone yearly steps) with a "
    "random delta_lambda_aero in either thermal model; temperatures, imbalance and heat content of every year are compared "
    "with the reference thermal model whose feedback is set each year from the aerosol share of the recorded component "
    "forcings. Non-trivial: share changes during the run; distinct by form of the input, thermal model and sign of delta."
)
EXPECTED_MONITORS = ["steps", "file-run", "model-run", "share-range", "delta-zero-identical", "feedback-value"]
KEY = "waero-denominator-omits-precalculated"
AGENTS = ["CO2", "CH4", "N2O", "LANDUSE", "OTHER", "TROP_O3", "CFC-11", "SOLAR", "SO2F2", "CO",
          "SO2", "SO4_IND", "BC", "OC", "NOx", "NMVOC", "NH3", "BMB_AEROS", "SO4_DIR", "BC_ASIA", "OC_LAM", "SO2_REF"]
AERO = {"SO2", "SO4_IND", "BC", "OC", "NOx", "NMVOC", "NH3", "BMB_AEROS", "SO4_DIR", "BC_ASIA", "OC_LAM", "SO2_REF"}
FORMS = ["agents", "hemi+agents", "total+hemi+agents", "agents+w", "hemi+w", "hemi", "no-aerosol", "frame+w", "frame", "ndarray"]


def cases(rng, tier):
    mult = 6 if tier == "quick" else 10
    out = []
    for k in range(24 * mult):
        out.append({"kind": "steps", "thermal": ["default", "twolayer"][k % 2], "seed": int(rng.integers(1 << 31))})
    for k in range(60 * mult):
        out.append({"kind": "file", "form": FORMS[k % len(FORMS)], "thermal": ["default", "twolayer"][(k // len(FORMS)) % 2],
                    "seed": int(rng.integers(1 << 31))})
    for k in range(24 * mult):
        out.append({"kind": "model", "mode": ["emis", "conc"][k % 2], "thermal": ["default", "twolayer"][(k // 2) % 2],
                    "delta": k % 8 != 7, "seed": int(rng.integers(1 << 31)), "cost": 4})
    return out


def thermal_params(rng, kind):
    from .c01 import partial_params
    from .c03 import params

    p = params(rng) if kind == "twolayer" else partial_params(rng)
    return p


def pick_delta(rng, kind, p):
    lam = 1 / p.get("lambda", 0.61) if kind == "default" else p.get("lambda", 3.74 / 3)
    return float(rng.choice([-0.97, -0.8, -0.45, -0.2, 0.3, 0.8, 2.0, 6.0]) * lam)


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"steps": steps, "file": file_run, "model": model_run}[case["kind"]](case, mon, rng)


def steps(case, mon, rng):
    from ciceroscm.thermal_model.two_layer_ocean import TwoLayerOceanModel
    from ciceroscm.thermal_model.upwelling_diffusion_model import UpwellingDiffusionModel

    kind = case["thermal"]
    p = thermal_params(rng, kind)
    p["delta_lambda_aero"] = pick_delta(rng, kind, p)
    model = (TwoLayerOceanModel if kind == "twolayer" else UpwellingDiffusionModel)(dict(p))
    ref = (R.RefTwoLayer if kind == "twolayer" else R.RefUDM)(p)
    n = int(rng.integers(8, 40))
    fn, fs = H.history(rng, str(rng.choice(["ramp", "step", "sine", "walk", "asym"])), n)
    w = rng.choice([0.0, 0.0, 1.0, 0.5, 0.13, 0.87], n)
    z = np.zeros(12)
    for i in range(n):
        model.set_feedback_gregory(w[i])
        ref.set_w(w[i])
        got, exp = model.energy_budget(fn[i], fs[i], z, z), ref.year(fn[i], fs[i], z, z)
        for k in ref.OUT.values():
            mon.close("steps", got[k], exp[k], 1e-7, 1e-10, f"{kind} year {i} w={w[i]} {p} {k}")
        fb = model.get_feedback_gregory()
        mon.close("feedback-value", fb, ref.fb, 1e-9, 1e-12, f"{kind} feedback in year {i} w={w[i]}")
    mon.sig("steps", kind, p["delta_lambda_aero"] > 0)


def build(rng, form, years):
    """Forcing table of the given form: cfg entries, fn, fs, w, forms."""
    n = len(years)
    names = list(rng.choice(AGENTS, int(rng.integers(3, 9)), replace=False))
    if form == "no-aerosol":
        names = [c for c in names if c not in AERO] or ["CO2"]
    elif not AERO & set(names):
        names.append("BC")
    if form == "agents" and rng.random() < 0.2:
        names = [c for c in names if c in AERO]  # only aerosols: share is one
    df = pd.DataFrame({c: rng.normal(size=n) * rng.uniform(0.1, 2) + rng.uniform(-1, 1) for c in names}, index=years)
    df.iloc[rng.random(n) < 0.15] = 0.0
    share = np.zeros(n)
    tot = df.abs().sum(axis=1).to_numpy()
    aer = df[[c for c in names if c in AERO]].abs().sum(axis=1).to_numpy()
    share[tot > 0] = aer[tot > 0] / tot[tot > 0]
    total = df.sum(axis=1).to_numpy()
    fn, fs = H.history(rng, str(rng.choice(["sine", "walk", "asym"])), n)
    wcol = rng.uniform(0, 1, n)
    cfg = {}
    if form in ("agents", "no-aerosol"):
        out, fn, fs, w = df, total, total, share
    elif form == "hemi+agents":
        out, w = df.assign(FORC_NH=fn, FORC_SH=fs), share
    elif form == "total+hemi+agents":
        out, w = df.assign(total=(fn + fs) / 2, FORC_NH=fn, FORC_SH=fs), share
    elif form == "agents+w":
        out, fn, fs, w = df.assign(w_aero=wcol), total, total, wcol
    elif form == "hemi+w":
        out, w = pd.DataFrame({"FORC_NH": fn, "FORC_SH": fs, "w_aero": wcol}, index=years), wcol
    elif form == "hemi":
        out, w = pd.DataFrame({"FORC_NH": fn, "FORC_SH": fs}, index=years), np.zeros(n)
    elif form == "frame+w":
        out, w = pd.DataFrame({"total": (fn + fs) / 2, "FORC_NH": fn, "FORC_SH": fs, "w_aero": wcol}, index=years), wcol
    elif form == "frame":
        out, w = pd.DataFrame({"total": (fn + fs) / 2, "FORC_NH": fn, "FORC_SH": fs}, index=years), np.zeros(n)
    else:
        out, fs, w = fn, fn, np.zeros(n)
    if form in ("frame+w", "frame", "ndarray"):
        cfg["forc_data"] = out.copy()
    else:
        if rng.random() < 0.5:
            out = out[list(rng.permutation(out.columns))]
        out.index.name = "year"
        out.to_csv("forc.csv", float_format="%.17g")
        cfg["forc_file"] = "forc.csv"
    return cfg, fn, fs, w, names


def file_run(case, mon, rng):
    from ciceroscm import CICEROSCM

    kind = case["thermal"]
    n, y0 = int(rng.integers(8, 50)), int(rng.integers(1750, 2050))
    years = list(range(y0, y0 + n))
    cfg, fn, fs, w, names = build(rng, case["form"], years)
    cfg.update(nystart=y0, nyend=years[-1], thermal_model=kind)
    p = thermal_params(rng, kind)
    p["delta_lambda_aero"] = pick_delta(rng, kind, p)
    cscm = CICEROSCM(dict(cfg))
    with M.record_thermal() as calls:
        cscm._run({"results_as_dict": True}, pamset_udm=dict(p))
    desc = f"{case['form']} {kind} agents={names} {p}"
    share_range(mon, calls, n, desc, w)
    z = np.zeros((n, 12))
    exp = R.run_thermal(kind, p, fn, fs, z, z, w)
    for k, v in exp.items():
        if k in cscm.results:
            mon.close("file-run", cscm.results[k], v, 1e-7, 1e-9, f"{desc} {k}")
    # without the pattern effect the share is irrelevant
    q = dict(p, delta_lambda_aero=0.0)
    cscm._run({"results_as_dict": True}, pamset_udm=q)
    a = {k: cscm.results[k].copy() for k in exp if k in cscm.results}
    q.pop("delta_lambda_aero")
    tab = pd.DataFrame({"total": 0.5 * (fn + fs), "FORC_NH": fn, "FORC_SH": fs}, index=years)
    plain = CICEROSCM({"nystart": y0, "nyend": years[-1], "thermal_model": kind, "forc_data": tab})
    plain._run({"results_as_dict": True}, pamset_udm=q)
    for k, v in a.items():
        mon.close("delta-zero-identical", v, plain.results[k], 1e-9, 1e-11, f"{desc} {k}")
    if np.ptp(w) > 0:
        mon.sig("file", case["form"], kind, p["delta_lambda_aero"] > 0)
    mon.note = {"form": case["form"], "agents": names, "share": [float(w.min()), float(w.max())]}


def share_range(mon, calls, n, desc, w=None):
    if len(calls.w) == n:
        for i, x in enumerate(calls.w):
            mon.check("share-range", 0.0 <= x <= 1.0 + 1e-12, f"{desc} share {x} in year {i}")


def model_run(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], thermal=case["thermal"], perturb=bool(rng.random() < 0.5))
    p = s.udm
    p["delta_lambda_aero"] = pick_delta(rng, s.thermal, p) if case["delta"] else 0.0
    if rng.random() < 0.2:
        s.emi["just_one"] = "BC"
    with M.record_thermal() as calls:
        _, res = D.run(s)
    n = len(s.years)
    forc = D.forc_table(res)
    if len(calls.fn) == n:
        fn, fs, vn, vs = calls.fn, calls.fs, calls.vn, calls.vs
    else:
        _, fn, fs = R.hemispheres(forc, s.t_sun(), s.emi.get("just_one"))
        vn, vs = s.t_volc()
    pre = set(R.vanilla(s.gas)) | {"STRAT_O3"}
    num = sum(np.abs(v) for k, v in forc.items() if k not in pre and R.is_aerosol(k))

    def share(den):
        return np.where(den > 0, num / np.where(den > 0, den, 1), 0.0)

    full = share(sum(np.abs(v) for v in forc.values()))
    part = share(sum(np.abs(v) for k, v in forc.items() if k not in pre))
    share_range(mon, calls, n, s.describe())

    def diff(w):
        exp = R.run_thermal(s.thermal, p, fn, fs, vn, vs, w)
        worst = None
        for k, v in exp.items():
            if k in res:
                sc = 1e-7 * np.maximum(np.abs(v), 1e-3 * np.abs(v).max()) + 1e-9
                bad = ~(np.abs(res[k] - v) <= sc)
                if bad.any():
                    worst = f"{k} year {s.years[int(np.flatnonzero(bad)[0])]}: {res[k][bad][0]!r} expected {v[bad][0]!r}"
                    break
        return worst

    mon.seen("model-run", n)
    d_full = diff(full)
    if d_full is not None:
        d_part = diff(part)
        if d_part is None:
            mon.known(KEY, f"{s.describe()}: {d_full}")
        else:
            mon.fail("model-run", f"{s.describe()} delta={p['delta_lambda_aero']}: {d_full}")
    if not case["delta"]:
        mon.check("delta-zero-identical", d_full is None, f"{s.describe()} {d_full}")
    elif np.ptp(part) > 0:
        mon.sig("model", case["mode"], s.thermal, p["delta_lambda_aero"] > 0)

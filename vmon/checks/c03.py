"""C03: the two-layer thermal model conserves energy."""
import numpy as np

from .. import data as D
from .. import hist as H
from .. import mons as M
from .. import ref as R

RULE = (
    "A case drives the real two-layer model (stand-alone or inside a run) with hemispheric and volcanic forcing; the "
    "energy ledger is kept from its own outputs: yearly change of mixed, deep and total heat against forcing, feedback and "
    "exchange at the start of the year, plus all outputs against an independent reference. Non-trivial: non-zero heat "
    "content; distinct by driver, history shape, depth regime and efficacy."
)
EXPECTED_MONITORS = ["ledger-total", "ledger-deep", "ledger-mixed", "outputs", "reference", "run-reference", "feedback"]
AREA = 3.61e14


def cases(rng, tier):
    mult = 6 if tier == "quick" else 20
    out = []
    for k in range(108 * mult):
        out.append({"kind": "steps", "seed": int(rng.integers(1 << 31)), "hist": H.KINDS[k % len(H.KINDS)], "pattern": k // len(H.KINDS) % 2 == 1})
    for k in range(24 * mult):
        out.append({"kind": "run", "seed": int(rng.integers(1 << 31)), "mode": ["emis", "conc", "forc", "forc"][k % 4], "cost": 3})
    return out


def params(rng):
    p = D.rand_two(rng)
    r = rng.random()
    if r < 0.1:
        return {}
    if r < 0.4:
        return {k: v for k, v in p.items() if rng.random() < 0.5}
    if r < 0.6:
        p["mixed"] = float(rng.uniform(20, 900))
        p["deep"] = float(rng.uniform(100, 3500))
    return p


def full(p):
    q = dict(R.TWO_DEFAULT)
    q.update(p)
    return q


def ledger(mon, p, prev, v, F, ctx, w=0.0):
    q = full(p)
    q["lambda"] = q["lambda"] + q["delta_lambda_aero"] * w
    joule = 1000.0 * 4184.0
    tf0, ts0 = prev
    ex = q["k"] * (tf0 - ts0)
    year = R.SEC_YEAR
    scale = AREA / 1e22
    dmix = (v["dtemp_fast"] - tf0) * q["mixed"] * joule
    ddeep = (v["dtemp_slow"] - ts0) * q["deep"] * joule
    mon.close("ledger-mixed", dmix, (F - q["lambda"] * tf0 - q["ocean_efficacy"] * ex) * year, 1e-7, 1.0, ctx)
    mon.close("ledger-deep", ddeep, ex * year, 1e-7, 1.0, ctx)
    d_tot = (v["OHCTOT"] * 1e22 / AREA) - (tf0 * q["mixed"] + ts0 * q["deep"]) * joule
    mon.close("ledger-total", d_tot, (F - q["lambda"] * tf0 - (q["ocean_efficacy"] - 1) * ex) * year, 1e-7, 10.0, ctx)
    mon.close("outputs", v["OHC_MIXED"], v["dtemp_fast"] * q["mixed"] * joule * scale, 1e-9, 1e-12, f"{ctx} OHC_MIXED")
    mon.close("outputs", v["OHC_DEEP"], v["dtemp_slow"] * q["deep"] * joule * scale, 1e-9, 1e-12, f"{ctx} OHC_DEEP")
    mon.close("outputs", v["OHCTOT"], v["OHC_MIXED"] + v["OHC_DEEP"], 1e-9, 1e-12, f"{ctx} OHCTOT")
    top = v["OHC_MIXED"] * min(1.0, 700.0 / q["mixed"]) + v["OHC_DEEP"] * min(1.0, max(700.0 - q["mixed"], 0.0) / q["deep"])
    mon.close("outputs", v["OHC700"], top, 1e-9, 1e-12, f"{ctx} OHC700")
    ex2 = q["k"] * (v["dtemp_fast"] - v["dtemp_slow"])
    mon.close("outputs", v["RIB"], F - q["lambda"] * v["dtemp_fast"] - (q["ocean_efficacy"] - 1) * ex2, 1e-8, 1e-11, f"{ctx} RIB")
    fo = 0.5 * (q["foan"] + q["foas"])
    mon.close("outputs", v["dtemp"], fo * v["dtemp_fast"] + (1 - fo) * F / q["lambda"], 1e-9, 1e-12, f"{ctx} dtemp")


def run(case, mon):
    from ciceroscm.thermal_model.two_layer_ocean import TwoLayerOceanModel

    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "steps":
        n = int(rng.integers(250, 600)) if rng.random() < 0.08 else int(rng.integers(10, 120))
        p = params(rng)
        fn, fs = H.history(rng, case["hist"], n)
        cols = [1, 2, 4, 12]
        vn, vs = H.volcanoes(rng, n, int(rng.choice(cols)), int(rng.choice(cols)), rng.random() < 0.7)
        weights = np.zeros(n)
        if case.get("pattern"):
            p["delta_lambda_aero"] = float(rng.uniform(-0.35, 0.8))
            weights = rng.uniform(0, 1, n) * (rng.random(n) < 0.9)
        model, ref = TwoLayerOceanModel(dict(p)), R.RefTwoLayer(p)
        prev = (0.0, 0.0)
        for i in range(n):
            if case.get("pattern"):
                model.set_feedback_gregory(weights[i])
                ref.set_w(weights[i])
                mon.close("feedback", model.get_feedback_gregory(), full(p)["lambda"] + p["delta_lambda_aero"] * weights[i], 1e-12, 0, f"year {i} {p}")
            v = model.energy_budget(fn[i], fs[i], vn[i], vs[i])
            e = ref.year(fn[i], fs[i], vn[i], vs[i])
            F = 0.5 * (fn[i] + fs[i]) + 0.5 * (vn[i].mean() + vs[i].mean())
            ctx = f"{case['hist']} year {i} {p}"
            ledger(mon, p, prev, v, F, ctx, weights[i])
            for k in e:
                if not k.startswith("_"):
                    mon.close("reference", v[k], e[k], 1e-8, 1e-11, f"{ctx} {k}")
            prev = (v["dtemp_fast"], v["dtemp_slow"])
        mon.note = {"params": p, "last": {k: float(v[k]) for k in ("dtemp", "RIB", "OHCTOT")}}
        if v["OHCTOT"] != 0:
            q = full(p)
            mon.sig("steps", case["hist"], q["mixed"] >= 700, q["ocean_efficacy"] != 1, bool(case.get("pattern")))
        return
    if case["mode"] == "forc":
        from ciceroscm import CICEROSCM

        n, y0 = int(rng.integers(10, 80)), int(rng.integers(1750, 2000))
        kind = str(rng.choice(H.LIVE))
        fn, fs = H.history(rng, kind, n)
        p = params(rng)
        import pandas as pd

        years = list(range(y0, y0 + n))
        cfg = {"nystart": y0, "nyend": y0 + n - 1, "thermal_model": "twolayer",
               "forc_data": pd.DataFrame({"total": (fn + fs) / 2, "FORC_NH": fn, "FORC_SH": fs}, index=years)}
        weights = None
        if rng.random() < 0.5:
            weights = rng.uniform(0, 1, n)
            cfg["forc_data"]["w_aero"] = weights
            p["delta_lambda_aero"] = float(rng.uniform(-0.35, 0.8))
        vn = vs = np.zeros((n, 12))
        sun = np.zeros(n)
        if rng.random() < 0.6:
            a, b, c = D.series_frame(rng, 3), D.series_frame(rng, int(rng.choice([1, 3, 12]))), D.series_frame(rng, 1, 0.3, "sun")
            cfg.update(sunvolc=1, rf_volc_n_data=a.loc[years], rf_volc_s_data=b.loc[years], rf_sun_data=c.loc[years])
            vn, vs, sun = a.loc[years].to_numpy(), b.loc[years].to_numpy(), c.loc[years].to_numpy()[:, 0]
        cscm = CICEROSCM(cfg)
        cscm._run({"results_as_dict": True}, pamset_udm=dict(p))
        res, desc = cscm.results, f"forc {kind} {p}"
        fn, fs = fn + sun, fs + sun
    else:
        weights = None
        s = D.rand_setup(rng, case["mode"], thermal="twolayer")
        with M.record_thermal() as calls:
            _, res = D.run(s)
        p, desc = s.udm, s.describe()
        if len(calls.fn) == len(s.years):
            fn, fs, vn, vs = calls.fn, calls.fs, calls.vn, calls.vs
        else:
            _, fn, fs = R.hemispheres(D.forc_table(res), s.t_sun())
            vn, vs = s.t_volc()
    exp = R.run_thermal("twolayer", p, fn, fs, vn, vs, weights)
    for k in exp:
        if k in res or k in ("dT_glob", "RIB_glob", "OHC700", "OHCTOT"):
            mon.close("run-reference", res[k], exp[k], 1e-8, 1e-11, f"{desc} {k}")
    mon.sig("run", case["mode"], full(p)["mixed"] >= 700, weights is not None)

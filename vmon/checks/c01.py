"""C01: the default thermal model solves its upwelling-diffusion balance."""
import numpy as np

from .. import data as D
from .. import hist as H
from .. import mons as M
from .. import ref as R

RULE = (
    "A case is one forcing history (18 shapes up to +-150 W/m2, hemispherically different, volcanic columns 1-24 per hemisphere) with one "
    "random parameter set given to the real model stand-alone, to interleaved instances, or to a whole forcing/emission "
    "run; every yearly surface temperature is compared with an independent dense-matrix solution. Non-trivial: the "
    "temperature response is not identically zero; distinct by driver, history shape and parameter regime."
)
ASSUMPTIONS = ["reference solution in vmon/ref.py encodes the documented discretisation"]
EXPECTED_MONITORS = ["step-temperatures", "run-temperatures", "interleaved-temperatures"]
TEMPS = {"dtemp", "dtempnh", "dtempsh", "dtemp_air", "dtempnh_air", "dtempsh_air", "dtemp_sea", "dtempnh_sea", "dtempsh_sea"}
COLS = [1, 2, 3, 4, 5, 6, 12, 24]


def cases(rng, tier):
    mult = 3 if tier == "quick" else 12
    out = []
    for k in range(72 * mult):
        out.append({"kind": "steps", "seed": int(rng.integers(1 << 31)), "hist": H.KINDS[k % len(H.KINDS)]})
    for k in range(18 * mult):
        out.append({"kind": "interleaved", "seed": int(rng.integers(1 << 31)), "hist": H.KINDS[k % len(H.KINDS)]})
    for k in range(20 * mult):
        out.append({"kind": "run", "seed": int(rng.integers(1 << 31)), "form": ["ndarray", "frame", "file", "default"][k % 4], "cost": 2})
    for k in range(8 * mult):
        out.append({"kind": "emission", "seed": int(rng.integers(1 << 31)), "mode": ["emis", "conc"][k % 2], "cost": 3})
    return out


ODD = {"rlamdo": [0.5, 1.0, 60.0], "akapa": [0.01, 0.05, 4.0], "cpi": [0.0, 0.9, 1.0], "W": [0.05, 12.0, 30.0], "beto": [0.0, 30.0],
       "lambda": [0.1, 0.2, 2.5, 5.0], "mixed": [5.0, 15.0, 300.0, 650.0], "foan": [0.05, 0.2, 0.95, 1.0], "foas": [0.1, 0.3, 0.99, 1.0],
       "ebbeta": [-0.5, 12.0], "lm": [8, 9, 10, 100], "ldtime": [1, 2, 3, 8, 36], "ocean_efficacy": [0.3, 0.5, 1.8, 2.5],
       "threstemp": [25.0, 100.0]}  # far from usual, and still valid


def partial_params(rng):
    """Random subset of random parameters, so defaults matter too."""
    p = D.rand_udm(rng)
    r = rng.random()
    if r < 0.15:
        return {}
    if r < 0.5:
        keep = [k for k in p if rng.random() < 0.5]
        p = {k: p[k] for k in keep}
    if rng.random() < 0.25:
        for k in rng.choice(list(ODD), int(rng.integers(1, 3)), replace=False):
            v = ODD[str(k)][int(rng.integers(len(ODD[str(k)])))]
            p[str(k)] = v
    if rng.random() < 0.2:
        p["mixed"] = float(rng.choice([100.0, 99.0, 101.0, 250.0, 60.0]))
    if rng.random() < 0.2:  # upwelling that turns around
        p["threstemp"] = float(rng.choice([0.2, 0.5, 1.0]))
    if rng.random() < 0.1:
        p["W"] = 0.0
    if rng.random() < 0.1:
        p["beto"] = 0.0
    return p


def regime(p):
    return (p.get("threstemp", 7) == 0, p.get("ebbeta", 0) != 0, p.get("ocean_efficacy", 1) != 1,
            p.get("lm", 40) != 40, p.get("ldtime", 12) != 12)


def compare(mon, name, got, exp, ctx):
    for key in sorted(TEMPS):
        mon.close(name, [g[key] for g in got], [e[key] for e in exp], rtol=1e-7, atol=1e-11, ctx=f"{ctx} {key}")


def run(case, mon):
    from ciceroscm.thermal_model.upwelling_diffusion_model import UpwellingDiffusionModel as UDM

    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "steps":
        n = int(rng.integers(250, 420)) if rng.random() < 0.08 else int(rng.integers(12, 90))
        p = partial_params(rng)
        fn, fs = H.history(rng, case["hist"], n)
        vn, vs = H.volcanoes(rng, n, int(rng.choice(COLS)), int(rng.choice(COLS)), rng.random() < 0.6)
        n = R.calm_years(p, fn, fs, vn, vs)
        if n == 0:
            return
        model, ref = UDM(dict(p)), R.RefUDM(p)
        got, exp = [], []
        for i in range(n):
            got.append(model.energy_budget(fn[i], fs[i], vn[i], vs[i]))
            exp.append(ref.year(fn[i], fs[i], vn[i], vs[i]))
        compare(mon, "step-temperatures", got, exp, f"{case['hist']} {p}")
        mon.note = {"params": p, "years": n, "final_dT": got[-1]["dtemp"]}
        if any(abs(e["dtemp"]) > 0 for e in exp):
            mon.sig("steps", case["hist"], *regime(p))
    elif case["kind"] == "interleaved":
        n = int(rng.integers(10, 40))
        ps = [partial_params(rng) for _ in range(3)]
        hs = [H.history(rng, str(rng.choice(H.KINDS)), n) for _ in ps]
        vol = [H.volcanoes(rng, n, int(rng.choice(COLS)), int(rng.choice(COLS))) for _ in ps]
        models = [UDM(dict(p)) for p in ps]
        n = min(R.calm_years(p, *h, *v) for p, h, v in zip(ps, hs, vol))
        got = [[] for _ in ps]
        todo = [0] * len(ps)
        while min(todo) < n:
            j = int(rng.choice([k for k in range(len(ps)) if todo[k] < n]))
            i = todo[j]
            got[j].append(models[j].energy_budget(hs[j][0][i], hs[j][1][i], vol[j][0][i], vol[j][1][i]))
            todo[j] += 1
        for j, p in enumerate(ps):
            ref = R.RefUDM(p)
            exp = [ref.year(hs[j][0][i], hs[j][1][i], vol[j][0][i], vol[j][1][i]) for i in range(n)]
            compare(mon, "interleaved-temperatures", got[j], exp, f"instance {j} {p}")
            mon.sig("interleaved", *regime(p))
    elif case["kind"] == "run":
        forcing_run(case, mon, rng)
    else:
        s = D.rand_setup(rng, case["mode"], thermal="default")
        with M.record_thermal() as calls:
            _, res = D.run(s)
        if len(calls.fn) != len(s.years):
            # not observable at the boundary: forcing from recorded components
            _, fn, fs = R.hemispheres(D.forc_table(res), s.t_sun())
            vn, vs = s.t_volc()
        else:
            fn, fs, vn, vs = calls.fn, calls.fs, calls.vn, calls.vs
        exp = R.run_thermal("default", s.udm, fn, fs, vn, vs)
        for k, v in exp.items():
            if k.startswith("dT"):
                mon.close("run-temperatures", res[k], v, rtol=1e-7, ctx=f"{s.describe()} {k}")
        mon.sig("emission", case["mode"], s.idtm, *regime(s.udm))


def forcing_run(case, mon, rng):
    import pandas as pd
    from ciceroscm import CICEROSCM

    n = int(rng.integers(20, 110))
    y0 = int(rng.choice([1750, 1751, 1850, 1901, 2015]))
    years = list(range(y0, y0 + n))
    p = {} if case["form"] == "default" else partial_params(rng)
    fn, fs = H.history(rng, str(rng.choice(H.KINDS)), n)
    if R.calm_years(p, fn, fs, np.zeros((n, 1)), np.zeros((n, 1)), 40.0) < n:
        p["threstemp"] = 7.0
    cfg = {"nystart": y0, "nyend": y0 + n - 1}
    volc = sun = None
    if rng.random() < 0.6:
        cfg["sunvolc"] = 1
        volc = (D.series_frame(rng, int(rng.choice(COLS))), D.series_frame(rng, int(rng.choice(COLS))))
        sun = D.series_frame(rng, 1, 0.3, "sun")
        cfg["rf_volc_n_data"], cfg["rf_volc_s_data"] = volc[0].loc[years], volc[1].loc[years]
        cfg["rf_sun_data"] = sun.loc[years]
    if case["form"] in ("ndarray", "default"):
        cfg["forc_data"] = fn.copy()
        fs = fn
    elif case["form"] == "frame":
        cfg["forc_data"] = pd.DataFrame({"total": (fn + fs) / 2, "FORC_NH": fn, "FORC_SH": fs}, index=years)
    else:
        df = pd.DataFrame({"year": years, "FORC_NH": fn, "FORC_SH": fs})
        df.to_csv("forc.csv", index=False, float_format="%.17g")
        cfg["forc_file"] = "forc.csv"
    cscm = CICEROSCM(cfg)
    cscm._run({"results_as_dict": True}, pamset_udm=dict(p))
    z = np.zeros((n, 12))
    vn, vs = (z, z) if volc is None else (volc[0].loc[years].to_numpy(), volc[1].loc[years].to_numpy())
    add = 0.0 if sun is None else sun.loc[years].to_numpy()[:, 0]
    exp = R.run_thermal("default", p, fn + add, fs + add, vn, vs)
    for k, v in exp.items():
        if k.startswith("dT"):
            mon.close("run-temperatures", cscm.results[k], v, rtol=1e-7, ctx=f"{case['form']} {y0}+{n} {p} {k}")
    mon.note = {"params": p, "years": [y0, y0 + n - 1], "final_dT": cscm.results["dT_glob"][-1]}
    mon.sig("run", case["form"], volc is not None, *regime(p))

"""C14: solar, volcanic and land use input act in the right year and only when asked."""
import numpy as np

from .. import data as D
from .. import hist as H
from .. import mons as M
from .. import ref as R

RULE = (
    "A case is an emission, concentration or forcing run with solar, volcanic and land use series whose rows and columns are all "
    "different, given as file or data for one or both hemispheres, with the switch on or off. Judged: the reported series, the "
    "volcanic columns recorded at the thermal model, the land use component, and the temperatures by a reference thermal model fed "
    "with the rows of exactly those years. Single-eruption cases move one non-zero column through the year. Non-trivial: series "
    "non-zero in the window; distinct by mode, switch, form, number of columns and thermal model."
)
EXPECTED_MONITORS = ["solar-reported", "volcanic-reported", "volcanic-handed", "landuse", "temperature", "off-is-zero", "off-identical", "solar-both-hemispheres",
                     "eruption-timing"]
COLS = [1, 2, 3, 4, 6, 12, 24]
ON = [1, 1, 1, True, 1.0]
OFF = [0, None, False, 2]


def cases(rng, tier):
    mult = 6 if tier == "quick" else 10
    out = []
    for k in range(60 * mult):
        out.append({"kind": "run", "mode": ["emis", "conc", "forc"][k % 3], "on": k % 4 != 3, "volc": ["common", "split", "default"][(k // 3) % 3],
                    "thermal": ["default", "twolayer"][k % 5 == 2], "seed": int(rng.integers(1 << 31)), "cost": 3})
    for k in range(24 * mult):
        out.append({"kind": "eruption", "thermal": ["default", "twolayer"][k % 4 == 3], "cols": COLS[k % len(COLS)], "seed": int(rng.integers(1 << 31)),
                    "cost": 2})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"run": whole, "eruption": eruption}[case["kind"]](case, mon, rng)


def whole(case, mon, rng):
    mode = case["mode"]
    s = D.rand_setup(rng, "conc" if mode == "forc" else mode, thermal=case["thermal"], sunvolc=1)
    if rng.random() < 0.3 and mode != "emis":
        s.nystart = int(rng.choice([1750, 1750, 1751, 1752]))
        s.nyend = s.nystart + int(rng.integers(5, 30))
        s.emi["ref_yr"] = s.nystart
    s.volc = s.volc_n = s.volc_s = s.sun = s.luc = None
    if case["volc"] == "common":
        s.volc = D.series_frame(rng, int(rng.choice(COLS)))
    elif case["volc"] == "split":
        s.volc_n, s.volc_s = D.series_frame(rng, int(rng.choice(COLS))), D.series_frame(rng, int(rng.choice(COLS)))
    if rng.random() < 0.7:
        s.sun = D.series_frame(rng, 1, 0.2, "sun")
    if rng.random() < 0.7:
        s.luc = D.series_frame(rng, 1, 0.1, "luc")
    for key in ("volc", "volc_n", "volc_s", "sun", "luc"):
        if getattr(s, key) is not None and rng.random() < 0.1:  # zeros are values too
            setattr(s, key, getattr(s, key) * 0.0)
    switch = ON[int(rng.integers(len(ON)))] if case["on"] else OFF[int(rng.integers(len(OFF)))]
    s.sunvolc = 1 if case["on"] else 0
    calls, res, fn, fs = execute(s, mode, switch, rng)
    ctx = f"{mode} {s.describe()} switch={switch} volc={case['volc']} deliver={ {k: v for k, v in s.deliver.items() if k.startswith('rf')} }"
    judge(mon, s, mode, calls, res, fn, fs, ctx)
    if not case["on"]:
        z = np.concatenate([res["Solar_forcing"], res["Volcanic_forcing_NH"], res["Volcanic_forcing_SH"]] + [np.ravel(x) for x in calls.vn + calls.vs])
        mon.check("off-is-zero", not np.any(z), f"{ctx} non-zero although off")
        s.volc = s.volc_n = s.volc_s = s.sun = None
        _, res2, _, _ = execute(s, mode, None, rng, fn, fs)
        M.same_results(mon, "off-identical", M.flat(res2), M.flat(res), f"{ctx} without the series")
    mon.sig("run", mode, str(switch), case["volc"], s.thermal, s.how("rf_sun"), [v.shape[1] for v in s.t_volc()])
    mon.note = {"run": s.describe(), "switch": str(switch), "steps": len(calls.fn)}


def execute(s, mode, switch, rng, fn=None, fs=None):
    from ciceroscm import CICEROSCM

    if mode == "forc":
        cfg = {"nystart": s.nystart, "nyend": s.nyend, "thermal_model": s.thermal}
        s.sunvolc_cfg(cfg, ".")
        if fn is None:
            fn, _ = H.history(rng, str(rng.choice(["ramp", "sine", "walk"])), len(s.years))
            fs = fn
        cfg["forc_data"] = np.array(fn)
    else:
        cfg = s.cfg()
    cfg.pop("sunvolc", None)
    if switch is not None:
        cfg["sunvolc"] = switch
    cscm = CICEROSCM(cfg)
    with M.record_thermal() as calls:
        if mode == "forc":
            cscm._run({"results_as_dict": True}, pamset_udm=dict(s.udm))
        else:
            D.run(s, cscm)
    return calls, cscm.results, fn, fs


def judge(mon, s, mode, calls, res, fn, fs, ctx):
    sun, (vn, vs) = s.t_sun(), s.t_volc()
    mon.close("solar-reported", res["Solar_forcing"], sun, 1e-10, 1e-13, ctx)
    mon.close("volcanic-reported", res["Volcanic_forcing_NH"], vn.mean(axis=1), 1e-10, 1e-13, f"{ctx} north")
    mon.close("volcanic-reported", res["Volcanic_forcing_SH"], vs.mean(axis=1), 1e-10, 1e-13, f"{ctx} south")
    if len(calls.fn) == len(s.years):
        for name, got, exp in (("north", calls.vn, vn), ("south", calls.vs, vs)):
            for i, g in enumerate(got):
                # every year handed over with its own columns, whatever their number
                mon.close("volcanic-handed", g.mean(), exp[i].mean(), 1e-10, 1e-13, f"{ctx} {name} year {s.years[i]}")
    if mode == "forc":
        nh, sh = np.asarray(fn) + sun, np.asarray(fs) + sun
        mon.close("solar-both-hemispheres", res["Total_forcing"], np.asarray(fn) + sun, 1e-10, 1e-12, ctx)
    else:
        forc = D.forc_table(res)
        mon.close("landuse", forc["LANDUSE"], s.t_luc(), 1e-10, 1e-13, f"{ctx} land use")
        _, nh, sh = R.hemispheres(forc, sun)
    if len(calls.fn) == len(s.years):
        mon.close("solar-both-hemispheres", calls.fn, nh, 1e-9, 1e-11, f"{ctx} north")
        mon.close("solar-both-hemispheres", calls.fs, sh, 1e-9, 1e-11, f"{ctx} south")
    exp = R.run_thermal(s.thermal, s.udm, nh, sh, vn, vs)
    for k in ("dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "RIB_glob", "OHCTOT"):
        if k in exp and k in res:
            mon.close("temperature", res[k], exp[k], 1e-6, 1e-9, f"{ctx} {k}")


def eruption(case, mon, rng):
    """One non-zero column: effect nowhere before, and of the right size in the year for each position."""
    ncol = case["cols"]
    n = int(rng.integers(8, 25))
    s = D.Setup(nystart=int(rng.choice([1750, 1751, 1752, *rng.integers(1750, 2300, 12)])), sunvolc=1, thermal=case["thermal"], luc=D.series_frame(rng, 1, 0.1, "luc"))
    s.nyend = s.nystart + n - 1
    s.udm = D.rand_two(rng) if case["thermal"] == "twolayer" else D.rand_udm(rng)
    if s.udm.get("ldtime", 12) < ncol:  # fewer steps than columns sample the columns
        s.udm["ldtime"] = 24 if ncol > 12 else int(rng.choice([12, 24]))
    s.sun = D.default_sun() * 0.0 if s.nyend <= D.default_sun().index[-1] else D.series_frame(rng, 1, 0.0, "sun")
    y, side = int(rng.integers(1, n - 1)), str(rng.choice(["n", "s", "both"]))
    fn = fs = np.zeros(n)
    for key in ("rf_sun", "rf_volc", "rf_volc_n", "rf_volc_s"):
        s.deliver[key] = str(rng.choice(["file", "data"]))
    seen = []
    for col in sorted({0, ncol // 2, ncol - 1}):
        v = D.series_frame(rng, ncol) * 0.0
        v.iloc[s.nystart - D.Y0 + y, col] = -3.0 * ncol / 12
        z = v * 0.0
        if side == "both":
            s.volc = v
        else:
            s.volc_n, s.volc_s = (v, z) if side == "n" else (z, v)
        calls, res, _, _ = execute(s, "forc", 1, rng, fn, fs)
        ctx = f"{case['thermal']} {s.nystart}+{n} eruption year {y} column {col} of {ncol} side {side} {s.udm}"
        judge(mon, s, "forc", calls, res, fn, fs, ctx)
        T = np.asarray(res["dT_glob"])
        mon.check("eruption-timing", not np.any(T[:y]) and T[y] < 0 and T[y + 1] < 0, lambda: f"{ctx} temperature {T[:y + 2]}")
        seen.append(float(T[y + 1]))
    mon.sig("eruption", case["thermal"], ncol, side)
    mon.note = {"response": seen}

"""C05: CO2 from emissions follows the Joos impulse response carbon cycle."""
import copy

import numpy as np

from .. import data as D
from .. import mons as M
from .. import ref as R

RULE = (
    "A case drives the real carbon cycle year by year (stand-alone, interleaved instances, or inside an emission run) with "
    "an emission and temperature history, parameters, decay functions, sub-steps and start year; each year's CO2 is "
    "compared with an independent pulse-response reference (in runs with the recorded temperatures of the run). "
    "Non-trivial: CO2 leaves its preindustrial value (or must stay exactly there for zero emissions); distinct by driver, "
    "emission shape, temperature shape, decay functions and high-DIC regime."
)
EXPECTED_MONITORS = ["yearly-co2", "zero-stays", "finite", "run-co2", "causal"]
SHAPES = ["const", "ramp", "pulse", "overshoot", "noise", "huge", "extreme", "tiny", "zero", "negative", "ssp"]
TEMPS = ["none", "missing", "zero", "ramp", "wild", "cold", "hot", "glacial", "molten", "swing"]


def cases(rng, tier):
    mult = 6 if tier == "quick" else 10
    out = []
    for k in range(66 * mult):
        out.append({"kind": "steps", "em": SHAPES[k % len(SHAPES)], "temp": TEMPS[int(rng.integers(len(TEMPS)))],
                    "fun": ["default", "rs", "rb", "both"][k % 4], "seed": int(rng.integers(1 << 31))})
    for k in range(4 * mult):  # several centuries
        out.append({"kind": "steps", "n": int(rng.integers(365, 760)), "em": ["pulse", "const", "overshoot", "negative"][k % 4], "temp": ["ramp", "zero", "cold"][k % 3],
                    "fun": ["rs", "both", "default", "rb"][(k + k // 4) % 4], "seed": int(rng.integers(1 << 31)), "cost": 6})
    for k in range(8 * mult):
        out.append({"kind": "causal", "seed": int(rng.integers(1 << 31))})
    for k in range(24 * mult):
        out.append({"kind": "run", "long": k % 12 == 0, "fun": ["default", "default", "cfg", "pam"][k % 4],
                    "seed": int(rng.integers(1 << 31)), "cost": 10 if k % 12 == 0 else 3})
    return out


def emissions(rng, shape, n):
    t = np.arange(n) / max(n - 1, 1)
    a = rng.uniform(2, 15)
    return {
        "const": np.full(n, a), "ramp": a * t, "pulse": np.where(np.arange(n) == n // 4, 200.0, 0.0),
        "overshoot": a * np.sin(2 * np.pi * t * 0.8), "noise": rng.normal(size=n) * 5 + 5,
        "huge": np.full(n, rng.uniform(40, 90)), "extreme": np.linspace(0, 400, n), "tiny": 1e-7 * rng.normal(size=n),
        "zero": np.zeros(n), "negative": np.where(t < 0.3, 12.0, -2.0),
        "ssp": (D.base_emis()["CO2_FF"] + D.base_emis()["CO2_AFOLU"]).to_numpy()[100:100 + n] * rng.uniform(0.5, 2),
    }[shape]


def temperatures(rng, shape, n):
    t = np.arange(n) / max(n - 1, 1)
    return {
        "none": np.zeros(n), "missing": np.zeros(n), "zero": np.zeros(n), "ramp": 5 * t,
        "wild": rng.normal(size=n) * 2, "cold": -4 * t, "hot": 15 * t,
        "glacial": -60 * t, "molten": 60 * t, "swing": 12 * np.sin(9 * t),
    }[shape]


def params(rng, fun, strong=True):
    p = D.rand_carb(rng)
    r = rng.random()
    if r < 0.2:
        p = {}
    elif r < 0.5:
        p = {k: v for k, v in p.items() if rng.random() < 0.5}
    if rng.random() < 0.4:
        p["preindustrial_co2_conc"] = float(rng.uniform(260, 300))
    if rng.random() < 0.2:
        p["ml_depth_min"] = float(rng.uniform(20, 60))
    if strong and rng.random() < 0.25:  # strong dependence on temperature
        p["solubility_sens"] = float(rng.uniform(0.05, 0.4))
        p["solubility_limit"] = float(rng.uniform(0.02, 0.5))
    if strong and rng.random() < 0.15:
        p["ml_fracmax"] = float(rng.uniform(0.7, 1.0))
        p["ml_w_sigmoid"] = float(rng.uniform(0.3, 1.5))
    rs = D.rand_rs(rng) if fun in ("rs", "both") else None
    rb = D.rand_rb(rng) if fun in ("rb", "both") else None
    return p, rs, rb


def make(p, rs, rb, y0, n, idtm):
    from ciceroscm.carbon_cycle.carbon_cycle_mod import CarbonCycleModel

    pam = dict(p)
    if rs is not None:
        pam["rs_function"] = copy.deepcopy(rs)
    if rb is not None:
        pam["rb_function"] = copy.deepcopy(rb)
    return CarbonCycleModel({"idtm": idtm, "nystart": y0, "nyend": y0 + n - 1}, pam)


def feedback(temp, T, i):
    if temp == "none":
        return None
    if temp == "missing":
        return {}
    return {"dtemp": float(T[i])}


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "run":
        return whole_run(case, mon, rng)
    n = int(rng.integers(15, 110))
    y0 = int(rng.choice([1750, 1850, 1700, 2000, 1983]))
    idtm = int(rng.choice([24, 24, 12, 6, 4, 48]))
    if case["kind"] == "causal":
        return causal(case, mon, rng, n, y0, idtm)
    if "n" in case:
        n, idtm = case["n"], int(rng.choice([4, 6, 2, 12]))
    p, rs, rb = params(rng, case["fun"])
    em = emissions(rng, case["em"], n)
    T = temperatures(rng, case["temp"], n)
    model = make(p, rs, rb, y0, n, idtm)
    ref = R.RefCarbon(n, idtm, p, rs, rb)
    # a second instance in between must not matter
    other = make(*params(rng, "both"), y0, n, idtm) if rng.random() < 0.3 else None
    got, exp = [], []
    for i in range(n):
        got.append(model.co2em2conc(y0 + i, em[i], feedback_dict=feedback(case["temp"], T, i)))
        exp.append(ref.year(i, em[i], T[i]))
        if other is not None:
            other.co2em2conc(y0 + i, 7.0, feedback_dict={"dtemp": 3.0})
    got, exp = np.array(got, float), np.array(exp)
    ctx = f"{case['em']} {case['temp']} {case['fun']} y0={y0} n={n} idtm={idtm} {p} rs={rs} rb={rb}"
    valid = np.isfinite(exp)
    k = n if valid.all() else int(np.flatnonzero(~valid)[0])
    # parameters in the range of use; the scheme can leave its domain for arbitrary ones
    mild = idtm >= 24 and p.get("mixed_carbon", 75) >= 60 and p.get("ml_fracmax", 0.5) <= 0.8 and p.get("solubility_sens", 0.02) <= 0.06 and p.get("ml_w_sigmoid", 3) >= 1 and case["fun"] == "default" and case["temp"] not in ("wild", "hot", "molten", "swing", "glacial")
    if (mild or valid.all()) and case["em"] in ("const", "ramp", "pulse", "huge", "extreme", "tiny", "zero", "ssp"):
        mon.check("finite", bool(np.isfinite(got).all()), f"non-finite CO2 {ctx}")
    # the scheme is unstable for some random parameters far outside any use
    bounded = np.abs(exp[:k]) < 1e5
    k = k if bounded.all() else int(np.flatnonzero(~bounded)[0])
    stable = R.stable_years(R.RefCarbon(n, idtm, p, rs, rb), em, T, exp[:k])
    if stable < k:
        mon.seen("years-not-determined-in-double-precision", k - stable)
        k = stable
    mon.close("yearly-co2", got[:k], exp[:k], 1e-8, 1e-8, ctx)
    if case["em"] == "zero":
        pre = p.get("preindustrial_co2_conc", 278.0)
        mon.check("zero-stays", bool((got == pre).all()), f"zero emissions gave {got[[0, -1]]} from {pre} {ctx}")
    mon.note = {"idtm": idtm, "years": n, "co2_last": float(got[-1]), "max_dic": float(ref.zmax_seen)}
    if k and np.abs(exp[:k] - exp[0]).max() > 0 or case["em"] == "zero":
        mon.sig("steps", case["em"], case["temp"], case["fun"], ref.zmax_seen > ref.ZMAX)


def causal(case, mon, rng, n, y0, idtm):
    p, rs, rb = params(rng, str(rng.choice(["default", "both"])), strong=False)
    e1 = emissions(rng, "noise", n)
    T1 = temperatures(rng, "wild", n)
    cut = int(rng.integers(1, n))
    e2, T2 = e1.copy(), T1.copy()
    e2[cut:] += rng.uniform(1, 30, n - cut)
    T2[cut:] += 2
    a, b = make(p, rs, rb, y0, n, idtm), make(p, rs, rb, y0, n, idtm)
    c = make(p, rs, rb, y0, cut, idtm)
    for i in range(cut):
        va = a.co2em2conc(y0 + i, e1[i], feedback_dict={"dtemp": T1[i]})
        vb = b.co2em2conc(y0 + i, e2[i], feedback_dict={"dtemp": T2[i]})
        vc = c.co2em2conc(y0 + i, e1[i], feedback_dict={"dtemp": T1[i]})
        mon.check("causal", va == vb, f"year {i} {va} {vb}")
        mon.close("causal", vc, va, 1e-11, 1e-11, f"year {i} with shorter horizon")
    mon.sig("causal", cut * 4 // n)


def whole_run(case, mon, rng):
    s = D.rand_setup(rng, "emis", carbon="default", long=case["long"], perturb=bool(rng.random() < 0.3))
    if case["fun"] == "cfg":
        s.rs, s.rb = D.rand_rs(rng), D.rand_rb(rng)
    elif case["fun"] == "pam":
        s.carb["rs_function"], s.carb["rb_function"] = D.rand_rs(rng), D.rand_rb(rng)
    scale = float(rng.choice([1, 1, 5, 0.1]))
    if rng.random() < 0.25:
        s.carb.update(solubility_sens=float(rng.uniform(0.05, 0.4)), solubility_limit=float(rng.uniform(0.02, 0.5)))
        scale = 1.0
        s.idtm = max(s.idtm, 12)
    if scale > 1:  # coarse steps are unstable for such emissions
        s.idtm = 24
        s.carb["mixed_carbon"] = max(s.carb["mixed_carbon"], 60.0)
    s.emis["CO2_FF"] *= scale
    _, res = D.run(s)
    exp, ref = M.ref_co2(s, res)
    if not M.carbon_stable(s, res, exp):
        mon.seen("run-not-determined-in-double-precision")
        return
    mon.close("run-co2", res["concentrations"]["CO2"], exp, 1e-8, 1e-8, f"{s.describe()} fun={case['fun']}")
    mon.sig("run", case["fun"], case["long"], s.thermal, s.idtm, ref.zmax_seen > ref.ZMAX)
    mon.note = {"run": s.describe(), "co2_last": float(exp[-1])}

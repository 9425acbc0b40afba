"""C06: carbon cycle outputs close the budget and invert emissions."""
import numpy as np

from .. import data as D
from .. import mons as M
from .. import ref as R
from .c05 import emissions, make, params, temperatures

RULE = (
    "A case is an emission run, a concentration run or a stand-alone back-calculation with random carbon parameters, decay "
    "functions, sub-steps and temperature path. Reported fluxes and diagnostics of every year are compared with the reference "
    "carbon cycle driven by the same emissions and temperatures, the budget is summed up, and back-calculated emissions are "
    "fed forward through a second real instance and the reference. Non-trivial: CO2 changes; distinct by kind, shape of the "
    "history, decay functions, thermal model and sub-steps."
)
EXPECTED_MONITORS = ["land-flux", "ocean-flux", "budget", "airborne", "feedback-columns", "forward-real", "forward-ref",
                     "conc-land-flux", "conc-ocean-flux", "recover"]
ASSUMPTIONS = ["The budget of the discretised scheme closes to 2 % of cumulative emissions (measured: below 1 %); "
               "the fluxes themselves are compared with the reference to 1e-7."]
CONCS = ["rise", "overshoot", "flat", "jag", "fall", "emis", "ssp", "step", "leap", "plunge"]


def cases(rng, tier):
    mult = 3 if tier == "quick" else 10
    out = []
    for k in range(32 * mult):
        out.append({"kind": "emis", "long": k % 16 == 0, "fun": ["default", "default", "cfg", "pam"][k % 4],
                    "seed": int(rng.integers(1 << 31)), "cost": 10 if k % 16 == 0 else 3})
    for k in range(30 * mult):
        out.append({"kind": "conc", "long": k % 30 == 0, "shape": CONCS[k % len(CONCS)], "fun": ["default", "default", "cfg", "pam"][k % 4],
                    "seed": int(rng.integers(1 << 31)), "cost": 12 if k % 30 == 0 else 4})
    for k in range(40 * mult):
        out.append({"kind": "back", "shape": CONCS[k % len(CONCS)], "fun": ["default", "default", "rs", "rb", "both"][k % 5],
                    "temp": ["zero", "ramp", "wild", "cold", "none", "glacial", "hot"][int(rng.integers(7))], "seed": int(rng.integers(1 << 31)), "cost": 2})
    for k in range(10 * mult):
        out.append({"kind": "airborne", "seed": int(rng.integers(1 << 31))})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"emis": emis_run, "conc": conc_run, "back": back, "airborne": airborne}[case["kind"]](case, mon, rng)


def decay(case, rng, s):
    if case["fun"] == "cfg":
        s.rs, s.rb = D.rand_rs(rng), D.rand_rb(rng)
    elif case["fun"] == "pam":
        s.carb["rs_function"], s.carb["rb_function"] = D.rand_rs(rng), D.rand_rb(rng)


def fraction(em, conc, pre):
    cum = np.cumsum(np.asarray(em, float))
    out = np.full(len(cum), np.nan)
    ok = cum != 0
    out[ok] = (np.asarray(conc)[ok] - pre) * R.PGC_PPM / cum[ok]
    return out


def columns(mon, df, ref, T, ctx):
    mon.close("feedback-columns", df["Mixed layer depth"], ref.depth(T), 1e-8, 1e-10, ctx + " depth")
    mon.close("feedback-columns", df["CO2 solubility"], ref.solub(T), 1e-8, 1e-10, ctx + " solubility")
    mon.close("feedback-columns", df["Net Primary Production"], ref.fnpp(T), 1e-8, 1e-10, ctx + " NPP")


def emis_run(case, mon, rng):
    s = D.rand_setup(rng, "emis", carbon="default", long=case["long"], perturb=bool(rng.random() < 0.3))
    decay(case, rng, s)
    if rng.random() < 0.15:  # nothing emitted at first
        s.emis.loc[:s.nystart + 3, ["CO2_FF", "CO2_AFOLU"]] = 0.0
    scale = float(rng.choice([1, 1, 4, 0.2]))
    if scale > 1:  # coarse steps are unstable for such emissions
        s.idtm = 24
        s.carb["mixed_carbon"] = max(s.carb["mixed_carbon"], 60.0)
    s.emis["CO2_FF"] *= scale
    if rng.random() < 0.25:
        s.carb.update(solubility_sens=float(rng.uniform(0.05, 0.4)), solubility_limit=float(rng.uniform(0.02, 0.5)))
        s.idtm = max(s.idtm, 12)
    _, res = D.run(s, carbon_outputs=True)
    df = res["carbon cycle"]
    T = np.asarray(res["dT_glob"])
    co2, ref = M.ref_co2(s, res)
    ctx = f"{s.describe()} fun={case['fun']}"
    if not M.carbon_stable(s, res, co2):
        mon.seen("run-not-determined-in-double-precision")
        return
    land, ocean = df["Biosphere carbon flux"].to_numpy(), df["Ocean carbon flux"].to_numpy()
    mon.close("land-flux", land, ref.land_flux(), 1e-7, 1e-8, ctx)
    mon.close("ocean-flux", ocean, ref.ocean_flux(), 1e-7, 1e-8, ctx)
    columns(mon, df, ref, T, ctx)
    conc = res["concentrations"]["CO2"].to_numpy()
    pre = s.conc.at[s.nystart, "CO2"]
    E = M.co2_emissions(s)
    rest = np.cumsum(E - land - ocean) - R.PGC_PPM * (conc - pre)
    if s.idtm >= 12 and case["fun"] == "default":
        lim = 0.02 * np.cumsum(np.abs(E)) + 0.1 * np.abs(E).max() + 0.05
        mon.check("budget", bool((np.abs(rest) <= lim).all()),
                  lambda: f"{ctx} unaccounted {rest[np.abs(rest) > lim][:3]} of {np.cumsum(np.abs(E))[-1]}")
        mon.note = {"unaccounted_share": float(np.abs(rest).max() / np.cumsum(np.abs(E))[-1])}
    em = s.t_emis()
    given = (em["CO2_FF"] + em["CO2_AFOLU"]).loc[s.years]
    mon.close("airborne", df["Airborne fraction CO2"], fraction(given, conc, pre), 1e-6, 1e-9, ctx)
    mon.check("rows", list(df.index) == s.years, f"{ctx} index {list(df.index)[:3]}")
    if np.ptp(conc) > 0:
        mon.sig("emis", case["fun"], s.thermal, s.idtm, case["long"])


def conc_shape(rng, shape, n, pre, idtm, p, T, rs=None, rb=None):
    t = np.arange(n) / n
    if shape == "rise":
        return pre + np.concatenate([[0], np.cumsum(rng.uniform(0, 3, n - 1))])
    if shape == "overshoot":
        return pre + rng.uniform(30, 90) * np.sin(3 * t)
    if shape == "flat":
        return np.full(n, pre)
    if shape == "jag":
        return pre + np.concatenate([[0], np.cumsum(rng.normal(size=n - 1))])
    if shape == "fall":
        return pre - rng.uniform(5, 30) * t
    if shape == "step":
        return pre + np.where(t > 0.4, rng.uniform(3, 12), 0.0)
    if shape == "leap":  # hundreds of ppm
        return pre + np.where(t > 0.4, rng.uniform(60, 250), 0.0) * np.where(t > 0.8, 0.6, 1.0)
    if shape == "plunge":
        return pre * (1 - np.where(t > 0.3, rng.uniform(0.1, 0.4), 0.0))
    if shape == "emis":
        r = R.RefCarbon(n, idtm, dict(p, preindustrial_co2_conc=pre), rs, rb)
        em = rng.uniform(3, 12) * np.sin(4 * t) + rng.normal(size=n)
        return np.array([r.year(i, em[i], T[i]) for i in range(n)])
    i = int(rng.integers(0, 600))
    c = D.base_conc()["CO2"].to_numpy()[i:i + n]
    return c - c[0] + pre


def judge_back(mon, ctx, em, conc, T, p, rs, rb, n, idtm):
    """Feed back-calculated emissions forward."""
    real = make(p, rs, rb, 1900, n, idtm)
    ref = R.RefCarbon(n, idtm, p, rs, rb)
    a = np.array([real.co2em2conc(1900 + i, em[i], feedback_dict={"dtemp": T[i]}) for i in range(n)])
    b = np.array([ref.year(i, em[i], T[i]) for i in range(n)])
    mon.close("forward-real", a, conc, 3e-7, 1e-9, ctx)
    mon.close("forward-ref", b, conc, 3e-7, 1e-9, ctx)
    return ref


def conc_run(case, mon, rng):
    s = D.rand_setup(rng, "conc", carbon="default", long=case["long"])
    decay(case, rng, s)
    n = len(s.years)
    pre = float(rng.uniform(270, 420))
    carb = {k: v for k, v in s.carb.items() if not isinstance(v, dict)}
    rs, rb = s.carb.get("rs_function", s.rs), s.carb.get("rb_function", s.rb)
    c = conc_shape(rng, case["shape"], n, pre, s.idtm, carb, np.linspace(0, 1.5, n), rs, rb)
    s.conc.loc[s.years, "CO2"] = c
    pre = float(c[0])
    _, res = D.run(s, carbon_outputs=True)
    df = res["carbon cycle"]
    T = np.asarray(res["dT_glob"])
    ctx = f"{s.describe()} {case['shape']} fun={case['fun']}"
    mon.close("prescribed", res["concentrations"]["CO2"], c, 1e-12, 0, ctx)
    p = dict(carb, preindustrial_co2_conc=pre)
    em = df["Emissions"].to_numpy()
    ref = judge_back(mon, ctx, em, c, T, p, rs, rb, n, s.idtm)
    mon.close("conc-land-flux", df["Biosphere carbon flux"], ref.land_flux_from_conc(c, T), 1e-7, 1e-8, ctx)
    mon.close("conc-ocean-flux", df["Ocean carbon flux"], ref.ocean_flux(), 1e-6, 1e-7, ctx)
    columns(mon, df, ref, T, ctx)
    mon.close("airborne", df["Airborne fraction CO2"], fraction(em, c, pre), 1e-8, 1e-10, ctx)
    if np.ptp(c) > 0:
        mon.sig("conc", case["shape"], case["fun"], s.thermal, s.idtm)


def back(case, mon, rng):
    p, rs, rb = params(rng, case["fun"], strong=False)
    n, idtm = int(rng.integers(8, 60)), int(rng.choice([24, 12, 6]))
    y0 = int(rng.choice([1750, 1850, 2000]))
    T = temperatures(rng, case["temp"], n)
    pre = p.get("preindustrial_co2_conc", 278.0)
    c = conc_shape(rng, case["shape"], n, pre, idtm, p, T, rs, rb)
    if rng.random() < 0.3:
        c = c + rng.uniform(0, 30)  # starts away from equilibrium
    model = make(p, rs, rb, y0, n, idtm)
    if rng.random() < 0.3:  # used before and reset
        for i in range(n // 2):
            model.co2em2conc(y0 + i, 9.0, feedback_dict={"dtemp": 1.0})
        model.reset_co2_hold()
    fb = None if case["temp"] == "none" else {"dtemp": T}
    em = np.asarray(model.back_calculate_emissions(c, feedback_dict_series=fb))
    ctx = f"{case['shape']} {case['temp']} {case['fun']} n={n} idtm={idtm} {p} rs={rs} rb={rb}"
    ref = judge_back(mon, ctx, em, c, T, p, rs, rb, n, idtm)
    flux = model.get_ocean_carbon_flux(conc_run=True, co2_conc_series=c, dtemp_series=T, redo_back_calculation=False)
    mon.close("conc-ocean-flux", flux, ref.ocean_flux(), 1e-6, 1e-7, ctx)
    lf = model.get_biosphere_carbon_flux(conc_run=True, co2_conc_series=c, dtemp_series=T)
    mon.close("conc-land-flux", lf, ref.land_flux_from_conc(c, T), 1e-7, 1e-8, ctx)
    again = make(p, rs, rb, y0, n, idtm)  # the series alone, the inversion left to the method
    mon.close("conc-ocean-flux", again.get_ocean_carbon_flux(conc_run=True, co2_conc_series=c, dtemp_series=T), flux, 1e-9, 1e-10, "unused instance: " + ctx)
    if np.ptp(c) > 0:
        mon.sig("back", case["shape"], case["temp"], case["fun"])
    # invert a known emission history
    e0 = emissions(rng, str(rng.choice(["const", "ramp", "overshoot", "ssp"])), n)
    real = make(p, rs, rb, y0, n, idtm)
    cc = np.array([real.co2em2conc(y0 + i, e0[i], feedback_dict={"dtemp": T[i]}) for i in range(n)])
    if np.isfinite(cc).all() and cc.min() > 150 and cc.max() < 1500:
        real.reset_co2_hold()
        e1 = np.asarray(real.back_calculate_emissions(cc, feedback_dict_series={"dtemp": T}))
        # one year's CO2 answers to that year's emissions with roughly 0.3-0.5 ppm per PgC
        tol = 1e-7 * cc.max() * 12
        mon.check("recover", bool((np.abs(np.cumsum(e1 - e0)) < tol * 4).all()),
                  f"{ctx} emissions not recovered: worst {np.abs(np.cumsum(e1 - e0)).max()}")


def airborne(case, mon, rng):
    from ciceroscm.carbon_cycle.common_carbon_cycle_functions import calculate_airborne_fraction

    n = int(rng.integers(3, 30))
    em = rng.normal(size=n) * 4 + 3
    kind = int(rng.integers(4))
    if kind == 1:
        em[:int(rng.integers(1, n))] = 0.0
    elif kind == 2:
        em[:] = 0.0
    elif kind == 3:
        em = np.tile([4.0, -4.0, 2.0], n)[:n]
    pre = float(rng.uniform(260, 300))
    c = pre + np.cumsum(rng.normal(size=n))
    e0, c0 = em.copy(), c.copy()
    got = calculate_airborne_fraction(em, c, preindustrial_co2_conc=pre)
    mon.close("airborne", got, fraction(e0, c0, pre), 1e-10, 1e-12, f"kind {kind}")
    mon.same("airborne", em, e0, "input changed")
    mon.sig("airborne", kind)

"""C07: box carbon cycle conserves carbon."""
import numpy as np

from .. import data as D
from .. import mons as M
from .. import ref as R
from .c05 import emissions, temperatures
from .c06 import fraction

RULE = (
    "A case steps the real box carbon cycle through an emission and temperature history (alone, interleaved with other "
    "instances, or inside a run) with random parameters. The change of the total of the five pools, the change of each pool, "
    "the concentration and the reported production and ocean flux of every year are judged by conservation and by an "
    "independent box reference. Non-trivial: pools change; distinct by driver, shapes and whether production was clipped."
)
EXPECTED_MONITORS = ["total-change", "pool-change", "yearly-co2", "npp-nonneg", "run-co2", "run-npp", "run-ocean", "airborne", "reset"]
SHAPES = ["const", "ramp", "pulse", "overshoot", "noise", "huge", "tiny", "zero", "negative", "ssp"]
TEMPS = ["none", "missing", "zero", "ramp", "wild", "cold", "hot", "glacial", "molten", "swing"]
POOLS = ("vegetation_carbon", "soil_carbon", "ocean_mixed_layer_carbon", "ocean_deep_carbon")
REFP = ("veg", "soil", "mix", "deep")


def cases(rng, tier):
    mult = 6 if tier == "quick" else 12
    out = []
    for k in range(120 * mult):
        out.append({"kind": "steps", "em": SHAPES[k % len(SHAPES)], "temp": TEMPS[int(rng.integers(len(TEMPS)))],
                    "seed": int(rng.integers(1 << 31))})
    for k in range(32 * mult):
        out.append({"kind": "run", "mode": ["emis", "conc"][k % 4 == 3], "long": k % 16 == 0, "seed": int(rng.integers(1 << 31)),
                    "cost": 10 if k % 16 == 0 else 3})
    return out


def pams(rng, wide=True):
    p = D.rand_box(rng, wide)
    r = rng.random()
    if r < 0.15:
        p = {}
    elif r < 0.5:
        p = {k: v for k, v in p.items() if rng.random() < 0.5}
    if rng.random() < 0.2:
        p["land_temp_sensitivity"] = float(rng.uniform(2, 20))  # production gets clipped
    if rng.random() < 0.2:
        p["beta_f"] = float(rng.uniform(5, 60))
    if rng.random() < 0.15 and wide:  # pools pass zero
        p["vegetation_to_soil_fraction"] = float(rng.uniform(0.8, 1.6))
    if rng.random() < 0.1 and wide:
        p["soil_respiration_rate"] = float(rng.uniform(0.3, 1.3))
    return p


def make(p, y0, n):
    from ciceroscm.carbon_cycle.carbon_cycle_mod_box import CarbonCycleModel

    return CarbonCycleModel({"idtm": 24, "nystart": y0, "nyend": y0 + n - 1}, dict(p))


def pools(model, ref=None):
    """Pools of the model; those of the reference if the model does not show them."""
    if all(hasattr(model, a) for a in POOLS):
        return np.array([getattr(model, a) for a in POOLS], float)
    return None if ref is None else np.array([getattr(ref, a) for a in REFP], float)


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "run":
        return whole_run(case, mon, rng)
    n, y0 = int(rng.integers(10, 250)), int(rng.choice([1750, 1850, 2000]))
    p = pams(rng)
    em, T = emissions(rng, case["em"], min(n, 300)), temperatures(rng, case["temp"], n)
    model, ref = make(p, y0, n), R.RefBox(p)
    other = make(pams(rng), y0, n) if rng.random() < 0.3 else None
    ctx = f"{case['em']} {case['temp']} n={n} {p}"
    if rng.random() < 0.3:  # an earlier run of the instance leaves nothing behind
        for i in range(5):
            model.co2em2conc(y0 + i, 30.0, feedback_dict={"dtemp": 2.0})
        model.reset_co2_hold()
        mon.check("reset", bool((pools(model, ref) == [600, 3000, 0, 0]).all()), f"{ctx} pools after reset {pools(model)}")
    conc, clipped = 278.0, False
    for i in range(n):
        before = pools(model, ref)
        fb = None if case["temp"] == "none" else ({} if case["temp"] == "missing" else {"dtemp": float(T[i])})
        new = float(model.co2em2conc(y0 + i, em[i], feedback_dict=fb))
        exp = ref.year(em[i], T[i])
        if other is not None:
            other.co2em2conc(y0 + i, 11.0, feedback_dict={"dtemp": 5.0})
        if not np.isfinite(exp) or exp < 1 or exp > 1e6:
            break
        after = pools(model, ref)
        change = (after - before).sum() + R.PGC_PPM * (new - conc)
        mon.close("total-change", change, em[i], 1e-8, 1e-7, f"{ctx} year {i}")
        mon.close("pool-change", after, [getattr(ref, a) for a in REFP], 1e-9, 1e-8, f"{ctx} year {i} pools")
        mon.close("yearly-co2", new, exp, 1e-10, 1e-8, f"{ctx} year {i}")
        npp = float(model.calculate_npp(T[i]))
        series = model.calculate_npp(np.array([T[i], T[i] + 80]), np.array([new, new]))
        oc = model.calculate_ocean_uptake(np.array([T[i], 1.0]), np.array([new, 300.0]))
        mon.check("npp-nonneg", npp >= 0 and (np.asarray(series) >= 0).all(), f"{ctx} npp {npp} {series}")
        mon.close("pool-change", [npp, series[0], series[1]], [ref.npp(T[i], new), ref.npp(T[i], new), ref.npp(T[i] + 80, new)], 1e-9, 1e-9, f"{ctx} year {i} production")
        mon.close("pool-change", oc, [ref.ocean(T[i], new), ref.ocean(1.0, 300.0)], 1e-9, 1e-9, f"{ctx} year {i} ocean uptake")
        clipped |= npp == 0
        conc = new
    mon.sig("steps", case["em"], case["temp"], bool(clipped))
    mon.note = {"co2_last": conc, "clipped": bool(clipped)}


def whole_run(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], carbon="box", long=case["long"], perturb=bool(rng.random() < 0.3))
    s.carb = pams(rng, wide=False) if rng.random() < 0.8 else s.carb
    if "beta_f" in s.carb:
        s.carb["beta_f"] = min(s.carb["beta_f"], 10.0)
    if "land_temp_sensitivity" in s.carb:
        s.carb["land_temp_sensitivity"] = min(s.carb["land_temp_sensitivity"], 3.0)
    cscm, res = D.run(s, carbon_outputs=True)
    ctx = f"{s.describe()} {s.carb}"
    conc = res["concentrations"]["CO2"].to_numpy()
    T = np.asarray(res["dT_glob"])
    ref = R.RefBox(s.carb)
    df = res["carbon cycle"]
    if case["mode"] == "emis":
        exp, ref = M.ref_co2(s, res)
        if not (np.isfinite(exp).all() and exp.min() > 1 and exp.max() < 1e5):
            return  # out of the domain of the model
        mon.close("run-co2", conc, exp, 1e-9, 1e-8, ctx)
        total = ref.total() - (278.0 * R.PGC_PPM + 3600)
        got = pools(cscm.ce_handler.carbon_cycle, ref).sum() - 3600 + (conc[-1] - 278) * R.PGC_PPM
        mon.close("total-change", got, M.co2_emissions(s).sum(), 1e-7, 1e-5, ctx)
        mon.close("total-change", got, total, 1e-7, 1e-5, ctx)
        em = s.t_emis()
        given = (em["CO2_FF"] + em["CO2_AFOLU"]).loc[s.years]
        mon.close("airborne", df["Airborne fraction CO2"], fraction(given, conc, 278.0), 1e-7, 1e-9, ctx)
    else:
        mon.close("run-co2", conc, s.conc.loc[s.years, "CO2"], 1e-12, 0, ctx)
    mon.close("run-npp", df["Net primary production"], ref.npp(T, conc), 1e-9, 1e-9, ctx)
    mon.close("run-ocean", df["Ocean carbon flux"], ref.ocean(T, conc), 1e-9, 1e-9, ctx)
    mon.sig("run", case["mode"], s.thermal, case["long"])

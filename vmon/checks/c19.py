"""C19: parameters given are used, others default, none leak."""
import copy

import numpy as np

from .. import data as D
from .. import hist as H
from .. import mons as M

RULE = (
    "A case takes one parameter group (upwelling-diffusion, two-layer, emission/forcing, Joos carbon, box carbon, configuration, "
    "decay functions) and a random subset of its parameters with random values, numeric types, non-numeric values and unknown "
    "names, and runs the real model: the result must equal the run with the complete, explicit parameter set (documented defaults "
    "held by the harness), differ where the parameter must matter, and a default run must be the same before and after. "
    "Non-trivial: the parameters changed the result; distinct by group, entry point, parameter and kind of value."
)
EXPECTED_MONITORS = ["thermal-set", "emiconc-set", "carbon-set", "influence", "non-numeric", "unknown", "numeric-type", "structural",
                     "cfg-default", "decay-equivalent", "decay-normalised", "decay-values", "default-stable", "carbon-reuse",
                     "alien-group"]

UDM = {"rlamdo": 15.0, "akapa": 0.66, "cpi": 0.21, "W": 2.2, "beto": 6.9, "threstemp": 7.0, "lambda": 0.61, "mixed": 107.0,
       "foan": 0.61, "foas": 0.81, "ebbeta": 0.0, "lm": 40, "ldtime": 12, "ocean_efficacy": 1.0, "delta_lambda_aero": 0.0}
TWO = {"lambda": 3.74 / 3, "mixed": 50.0, "deep": 1200.0, "k": 0.5, "ocean_efficacy": 1.0, "foan": 0.61, "foas": 0.81,
       "delta_lambda_aero": 0.0}
EMI = {"qbmb": 0.0, "qo3": 0.5, "qdirso2": -0.00308, "qindso2": -0.97 / 57.052577209999995, "qbc": 0.0279, "qoc": -0.00433,
       "qh2o_ch4": 0.091915, "ref_yr": 2010, "qnmvoc": 0.0, "qnh3": 0.0, "qnox": 0.0}
CARB = {"beta_f": 0.287, "mixed_carbon": 75.0, "ml_w_sigmoid": 3.0, "ml_fracmax": 0.5, "ml_t_half": 0.5, "t_half": 0.5,
        "w_sigmoid": 7, "t_threshold": 4, "w_threshold": 7, "solubility_sens": 0.02, "solubility_limit": 0.5,
        "ml_depth_min": 10.0}
BOX = {"beta_f": 0.287, "land_temp_sensitivity": 0.1, "soil_respiration_rate": 0.02, "ocean_mixed_layer_depth": 25.0,
       "ocean_exchange_rate": 0.01, "vegetation_to_soil_fraction": 0.1, "ocean_solubility_base": 0.02,
       "ocean_solubility_temp_coeff": -0.01}
DEFAULTS = {"udm": UDM, "two": TWO, "emi": EMI, "carb": CARB, "box": BOX}
ZERO = ("beto", "W", "cpi", "threstemp", "k", "qbmb", "qo3", "qdirso2", "qindso2", "qbc", "qoc", "qh2o_ch4", "qnmvoc", "qnh3", "qnox", "beta_f",
        "ml_fracmax", "solubility_sens", "ml_t_half", "t_half", "solubility_limit", "land_temp_sensitivity", "ocean_solubility_base",
        "ocean_solubility_temp_coeff", "delta_lambda_aero", "ebbeta")  # nothing of it is a value too
INTEGER = ("lm", "ldtime", "ref_yr")
BAD = ["string", None, [1.0], {"a": 1}, "3.5", ("x",), b"1"]
# only matters in special circumstances
QUIET = ("threstemp", "delta_lambda_aero", "ml_depth_min", "solubility_limit", "ref_yr", "lm", "ldtime", "ebbeta", "beto",
         "w_threshold", "t_threshold",
         # the box model keeps these for its ocean pools, which no output shows
         "ocean_mixed_layer_depth", "ocean_exchange_rate")


def cases(rng, tier):
    mult = 2 if tier == "quick" else 8
    out = []

    def add(kind, n, **kw):
        for k in range(n * mult):
            out.append({"kind": kind, "k": k, "seed": int(rng.integers(1 << 31)), **kw})

    add("thermal", 12, group="udm")
    add("thermal", 10, group="two")
    add("model", 16, group="emi", cost=4)
    add("model", 14, group="carb", cost=4)
    add("model", 10, group="box", cost=4)
    add("alone", 16, group="carb")
    add("alone", 8, group="box")
    add("structural", 8, cost=3)
    add("cfg", 4, cost=3)
    add("decay", 16, cost=2)
    add("decayval", 12)
    add("stable", 6, cost=5)
    add("reuse", 8, cost=3)
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    globals()[case["kind"]](case, mon, rng)


def value(rng, group, p, years=None):
    """A value different from the default."""
    if p in ZERO and rng.random() < 0.2:
        return 0.0 if rng.random() < 0.7 else 0
    full = {"udm": D.rand_udm, "two": D.rand_two, "carb": D.rand_carb, "box": D.rand_box}
    if group == "emi":
        return D.rand_emi(rng, years)[p]
    if p == "delta_lambda_aero":
        return float(rng.uniform(-0.5, 0.5))
    if p == "ml_depth_min":
        return float(rng.uniform(20, 60))
    v = full[group](rng)[p]
    return v


def subset(rng, group, years=None, n=None):
    names = [k for k in DEFAULTS[group]]
    n = int(rng.integers(1, len(names) + 1)) if n is None else n
    return {str(p): value(rng, group, str(p), years) for p in rng.choice(names, n, replace=False)}


def dirty(rng, group, p):
    """The same set with unusable and unknown entries for parameters that were not given."""
    q = dict(p)
    left = [k for k in DEFAULTS[group] if k not in p]
    bad = [str(k) for k in rng.choice(left, min(len(left), 3), replace=False)] if left else []
    for k in bad:
        q[k] = BAD[int(rng.integers(len(BAD)))]
    unk = {"not_a_parameter": 3.0, "Lambda": 9.0, "BETA_F": 8.0, "mixed ": 1.0, "": 2.0}
    items = list(q.items()) + list(unk.items())
    return dict(items[i] for i in rng.permutation(len(items))), bad


def typed(rng, p):
    """The same numbers in other numeric types."""
    out = {}
    for k, v in p.items():
        if k in INTEGER or isinstance(v, int):
            out[k] = [np.int64, np.int32, int][int(rng.integers(3))](v)
        else:
            out[k] = np.float64(v)
    return out


def compare(mon, name, got, exp, ctx):
    for key in exp:
        mon.close(name, got[key], exp[key], 1e-9, 1e-11, f"{ctx} {key}")


def differs(a, b):
    for k in b:
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        scale = np.nanmax(np.abs(y)) if np.isfinite(y).any() else 0
        d = np.abs(x - y)
        if np.nanmax(np.where(np.isfinite(d), d, 0)) > 1e-9 * max(scale, 1e-12) or (np.isnan(x) != np.isnan(y)).any():
            return True
    return False


# -- thermal models -----------------------------------------------------------
def thermal(case, mon, rng):
    from ciceroscm.thermal_model.two_layer_ocean import TwoLayerOceanModel
    from ciceroscm.thermal_model.upwelling_diffusion_model import UpwellingDiffusionModel
    from ciceroscm import CICEROSCM
    import pandas as pd

    group = case["group"]
    cls = UpwellingDiffusionModel if group == "udm" else TwoLayerOceanModel
    n = 20
    fn, fs = H.history(rng, "ramp", n)
    vn, vs = H.volcanoes(rng, n, 12, 12)
    w = rng.uniform(0, 0.6, n)
    via = ["direct", "run"][case["k"] % 2]

    def go(p):
        snap = M.snapshot(p)
        if via == "direct":
            m = cls(p) if p is not None else cls()
            rows = []
            for i in range(n):
                m.set_feedback_gregory(w[i])
                rows.append(dict(m.energy_budget(fn[i], fs[i], vn[i], vs[i])))
            # also the parameter set the model reports
            if p is not None:
                for k, v in DEFAULTS[group].items():
                    want = p.get(k, v)
                    if isinstance(want, (int, float, np.number)) and k in getattr(m, "pamset", {}):
                        mon.check("reported-pamset", m.pamset[k] == want or k in ("lambda",), f"{group} {k}: {m.pamset[k]} given {want}")
            res = {k: np.array([r[k] for r in rows], float) for k in rows[0]}
        else:
            df = pd.DataFrame({"total": (fn + fs) / 2, "FORC_NH": fn, "FORC_SH": fs, "w_aero": w}, index=np.arange(1950, 1950 + n))
            c = CICEROSCM({"nystart": 1950, "nyend": 1950 + n - 1, "forc_data": df,
                           "thermal_model": "default" if group == "udm" else "twolayer"})
            c._run({"results_as_dict": True}, pamset_udm=p)
            res = {k: np.asarray(v, float) for k, v in c.results.items()}
        if p is not None:
            mon.check("thermal-set", M.unchanged(snap, M.snapshot(p)), f"{group} parameters of the caller changed: {p}")
        return res

    base = go(dict(DEFAULTS[group]))
    compare(mon, "thermal-set", go({}), base, f"{group} {via} empty set against documented defaults")
    compare(mon, "thermal-set", go(None), base, f"{group} {via} no set against documented defaults")
    names = list(DEFAULTS[group])
    one = names[case["k"] // 2 % len(names)]
    for p in ({one: value(rng, group, one)}, subset(rng, group), {str(k): value(rng, group, str(k)) for k in rng.choice(names, 2, replace=False)}):
        ctx = f"{group} {via} {p}"
        exp = go({**DEFAULTS[group], **p})
        got = go(dict(p))
        compare(mon, "thermal-set", got, exp, ctx)
        q, bad = dirty(rng, group, p)
        compare(mon, "non-numeric" if bad else "unknown", go(q), exp, f"{ctx} with {q}")
        compare(mon, "unknown", go({**p, "qbmb": 3.0, "beta_f": 2.0, "W2": 1.0}), exp, f"{ctx} with unknown names")
        compare(mon, "numeric-type", go(typed(rng, p)), exp, f"{ctx} numpy types")
        same_val = all(p[k] == DEFAULTS[group][k] for k in p)
        eff = [k for k in p if k not in QUIET and p[k] != DEFAULTS[group][k]]
        if eff and not (group == "two" and set(eff) <= {"foan", "foas"}):
            if mon.check("influence", same_val or differs(exp, base), f"{ctx} has no effect"):
                mon.sig("thermal", group, via, one if len(p) == 1 else f"set{len(p)}")
    compare(mon, "default-stable", go({}), base, f"{group} {via} defaults afterwards")


# -- handler and carbon cycle in runs -----------------------------------------
def short(rng, carbon="default", **kw):
    s = D.rand_setup(rng, "emis", thermal="twolayer", carbon=carbon, pams=False, perturb=False, sunvolc=0,
                     lifetime=kw.pop("lifetime", "TAR"), regional=False, **kw)
    s.nystart = int(rng.integers(1985, 1998))
    s.nyend = int(rng.integers(2011, 2016))
    s.emstart = int(rng.choice([s.nystart, s.nystart + 3]))
    s.emi, s.carb, s.udm = {}, {}, {}
    s.deliver = {}
    return s


def results(s, cscm=None):
    c, r = D.run(s, cscm)
    return c, M.flat(r)


def model(case, mon, rng):
    group = case["group"]
    s = short(rng, "box" if group == "box" else "default")
    years = s.years

    def go(p):
        s.emi, s.carb = (p, {}) if group == "emi" else ({}, p)
        return results(s)[1]

    mname = "emiconc-set" if group == "emi" else "carbon-set"
    zeros = [k for k in DEFAULTS[group] if k in ZERO]
    base = go(dict(DEFAULTS[group]))
    compare(mon, mname, go({}), base, f"{group} empty set")
    names = list(DEFAULTS[group])
    one = names[case["k"] % len(names)]
    for p in ({one: value(rng, group, one, years)}, subset(rng, group, years), {zeros[case["k"] % len(zeros)]: 0.0}):
        ctx = f"{group} {p} {s.describe()}"
        exp = go({**DEFAULTS[group], **p})
        compare(mon, mname, go(dict(p)), exp, ctx)
        q, bad = dirty(rng, group, p)
        compare(mon, "non-numeric" if bad else "unknown", go(q), exp, f"{ctx} with {q}")
        compare(mon, "numeric-type", go(typed(rng, p)), exp, f"{ctx} numpy types")
        eff = [k for k in p if k not in QUIET and p[k] != DEFAULTS[group][k]]
        if eff:
            if mon.check("influence", differs(exp, base), f"{ctx} has no effect"):
                mon.sig("model", group, one if len(p) == 1 else f"set{len(p)}")
    # parameters of one group must not act in another
    s.emi, s.carb = {}, {}
    if group == "emi":
        s.carb = {"qo3": 2.0, "qbc": 1.0, "lambda": 3.0, "ref_yr": 1990}
    else:
        s.emi = {k: 7.7 * (v or 1) for k, v in DEFAULTS[group].items()}
        s.emi["mixed"] = 3.0
    compare(mon, "alien-group", results(s)[1], base, f"{group} parameters in another group")


def alone(case, mon, rng):
    """Stand-alone carbon cycle: parameters at construction or at reset."""
    from ciceroscm.carbon_cycle import carbon_cycle_mod, carbon_cycle_mod_box

    group = case["group"]
    CarbonCycleModel = (carbon_cycle_mod if group == "carb" else carbon_cycle_mod_box).CarbonCycleModel
    n = 40
    em = np.linspace(0, rng.uniform(5, 20), n)
    T = np.linspace(0, rng.uniform(2, 8), n)
    emi = {"idtm": int(rng.choice([12, 24])), "nystart": 1900, "nyend": 1900 + n - 1}

    def co2(m):
        return {"co2": np.array([m.co2em2conc(1900 + i, em[i], feedback_dict={"dtemp": T[i]}) for i in range(n)])}

    full = {**CARB, "preindustrial_co2_conc": 278.0} if group == "carb" else dict(BOX)
    base = co2(CarbonCycleModel(dict(emi), dict(full)))
    compare(mon, "carbon-set", co2(CarbonCycleModel(dict(emi), {})), base, f"stand-alone {group} empty set")
    compare(mon, "carbon-set", co2(CarbonCycleModel(dict(emi))), base, f"stand-alone {group} no set")
    names = list(DEFAULTS[group])
    one = names[case["k"] % len(names)]
    zeros = [k for k in DEFAULTS[group] if k in ZERO]
    for p in ({one: value(rng, group, one)}, subset(rng, group), {zeros[case["k"] % len(zeros)]: 0.0}):
        if group == "carb" and rng.random() < 0.4:
            p["preindustrial_co2_conc"] = float(rng.uniform(260, 300))
        exp = co2(CarbonCycleModel(dict(emi), {**full, **p}))
        compare(mon, "carbon-set", co2(CarbonCycleModel(dict(emi), dict(p))), exp, f"stand-alone {group} {p}")
        q, bad = dirty(rng, group, p)
        compare(mon, "non-numeric", co2(CarbonCycleModel(dict(emi), q)), exp, f"stand-alone {group} {q}")
        m = CarbonCycleModel(dict(emi))
        if rng.random() < 0.5:
            co2(m)
        m.reset_co2_hold(dict(q))
        compare(mon, "carbon-set", co2(m), exp, f"{group} set at reset {q}")
        m.reset_co2_hold()
        compare(mon, "carbon-reuse", co2(m), exp, f"{group} reset without parameters after {p}")
        # neither this model nor its parameters reach a new one
        compare(mon, "default-stable", co2(CarbonCycleModel(dict(emi))), base, f"stand-alone {group} defaults after {q}")
        compare(mon, "default-stable", co2(CarbonCycleModel(dict(emi), {})), base, f"stand-alone {group} empty set after {q}")
        eff = [k for k in p if k not in QUIET and p[k] != full[k]]
        if eff:
            mon.check("influence", differs(exp, base), f"stand-alone {group} {p} has no effect")
            mon.sig("alone", group, one if len(p) == 1 else f"set{len(p)}")


def structural(case, mon, rng):
    s = short(rng, ["default", "box"][case["k"] % 2])
    if case["k"] % 4 >= 2:
        s.mode = "conc"
    c, base = results(s)
    other = {"nystart": [1750, s.nystart + 2], "nyend": [2100, s.nyend - 2, s.nyend + 5], "emstart": [1850, 1990, s.emstart + 2],
             "idtm": [24, 12, 6, 3], "conc_run": [True, False], "carbon_cycle_model": ["default", "box"]}
    for key in list(other) + ["all"]:
        vals = other.get(key)
        e = {k: v[int(rng.integers(len(v)))] for k, v in other.items()} if key == "all" else {key: vals[int(rng.integers(len(vals)))]}
        s.emi = dict(e)
        _, got = results(s, c)
        ctx = f"{s.describe()} later run given {e}"
        mon.check("structural", set(got) == set(base), f"{ctx}: outputs {set(got) ^ set(base)}")
        compare(mon, "structural", got, base, ctx)
        mon.sig("structural", key, s.mode, s.carbon)
    s.emi = {}
    compare(mon, "structural", results(s)[1], base, "fresh instance afterwards")


def cfg(case, mon, rng):
    """Years, emission start and sub-steps of the configuration default to 1750, 2100, 1850, 24."""
    from ciceroscm import CICEROSCM

    s = short(rng)
    s.nystart, s.nyend, s.emstart, s.idtm = 1750, 2100, 1850, 24
    s.nat = {}
    full = s.cfg()
    drop = ["emstart", "idtm", "nystart", "nyend"]
    _, base = results(s)
    for variant in ("missing", "bad"):
        c = {k: v for k, v in s.cfg().items()}
        for k in drop:
            if case["k"] % 2 and rng.random() < 0.4:
                continue
            if variant == "missing":
                del c[k]
            else:
                c[k] = BAD[int(rng.integers(len(BAD)))]
        c["unknown_option"] = 12
        inst = CICEROSCM(c)
        inst._run({"results_as_dict": True})
        compare(mon, "cfg-default", M.flat(inst.results), base, f"configuration {variant} {[k for k in drop if c.get(k) != full[k]]}")
        mon.sig("cfg", variant, sum(k in c for k in drop))


# -- decay functions ----------------------------------------------------------
def flatten(rng, rs, rb, start=0):
    items = []
    for pre, f in (("rs", rs), ("rb", rb)):
        if f is None:
            continue
        items += [(f"{pre}_coef{i + start}", v) for i, v in enumerate(f["coeffs"])]
        items += [(f"{pre}_tim{i + start}", v) for i, v in enumerate(f["timescales"])]
    return dict(items[i] for i in rng.permutation(len(items)))


def scaled(rng, f):
    a = float(rng.uniform(0.2, 9))
    return {"coeffs": [c * a for c in f["coeffs"]], "timescales": list(f["timescales"])}


def reordered(rng, f, keep):
    """Terms in another order (the first keep coefficients stay)."""
    n = len(f["timescales"])
    o = rng.permutation(n)
    return {"coeffs": f["coeffs"][:keep] + [f["coeffs"][keep + i] for i in o], "timescales": [f["timescales"][i] for i in o]}


def decay(case, mon, rng):
    from ciceroscm.carbon_cycle.carbon_cycle_mod import CarbonCycleModel

    n_long = case["k"] % 5 == 4
    rs = D.rand_rs(rng, 11 if n_long else None)
    rb = D.rand_rb(rng, 12 if n_long else None)
    which = ["both", "rs", "rb"][case["k"] % 3]
    if which == "rs":
        rb = None
    if which == "rb":
        rs = None
    fun = {k: v for k, v in (("rs_function", rs), ("rb_function", rb)) if v is not None}
    pam = D.rand_carb(rng) if rng.random() < 0.5 else {}
    # stand-alone
    n = 30
    em, T = np.linspace(2, 12, n), np.linspace(0, 2, n)
    emi = {"idtm": 12, "nystart": 1900, "nyend": 1900 + n - 1}

    def co2(m):
        return {"co2": np.array([m.co2em2conc(1900 + i, em[i], feedback_dict={"dtemp": T[i]}) for i in range(n)])}

    plain = co2(CarbonCycleModel(dict(emi), dict(pam)))
    exp = co2(CarbonCycleModel(dict(emi), {**pam, **copy.deepcopy(fun)}))
    mon.check("influence", differs(exp, plain), f"decay functions {fun} have no effect")
    arr = {k: {"coeffs": np.array(v["coeffs"]), "timescales": np.array(v["timescales"])} for k, v in fun.items()}
    tup = {k: {"timescales": tuple(v["timescales"]), "coeffs": tuple(v["coeffs"])} for k, v in fun.items()}
    sca = {k: scaled(rng, v) for k, v in fun.items()}
    reo = {k: reordered(rng, v, 1 if k[:2] == "rs" else 0) for k, v in fun.items()}
    variants = {"arrays": arr, "tuples": tup, "scaled": sca, "reordered": reo, "flat": flatten(rng, rs, rb),
                "flat2": flatten(rng, rs, rb), "flat-scaled": flatten(rng, sca.get("rs_function"), sca.get("rb_function"))}
    for name, v in variants.items():
        given = {**pam, **copy.deepcopy(v)}
        snap = M.snapshot(given)
        compare(mon, "decay-equivalent", co2(CarbonCycleModel(dict(emi), given)), exp, f"{which} {name} at construction")
        mon.check("decay-equivalent", M.unchanged(snap, M.snapshot(given)), f"{name}: parameters of the caller changed")
        m = CarbonCycleModel(dict(emi), dict(pam))
        if rng.random() < 0.5:
            co2(m)
        m.reset_co2_hold(copy.deepcopy(v))
        compare(mon, "decay-equivalent", co2(m), exp, f"{which} {name} at reset")
        m.reset_co2_hold()
        compare(mon, "decay-equivalent", co2(m), exp, f"{which} {name} kept at next reset")
        mon.sig("decay", name, which, n_long)
    # only one of the functions replaced at a reset keeps the other
    if which == "both":
        m = CarbonCycleModel(dict(emi), {**pam, "rs_function": copy.deepcopy(rs)})
        m.reset_co2_hold({"rb_function": copy.deepcopy(rb)})
        compare(mon, "decay-equivalent", co2(m), exp, "second function at reset")
    # in runs: configuration, carbon parameter set, flat parameters
    s = short(rng)
    s.carb = {**pam, **copy.deepcopy(fun)}
    _, want = results(s)
    s.carb = {**pam, **flatten(rng, rs, rb)}
    compare(mon, "decay-equivalent", results(s)[1], want, f"run with flat {which}")
    s.carb, s.rs, s.rb = dict(pam), copy.deepcopy(rs), copy.deepcopy(rb)
    c, got = results(s)
    compare(mon, "decay-equivalent", got, want, f"run with {which} in the configuration")
    compare(mon, "decay-equivalent", results(s, c)[1], want, f"second run with {which} in the configuration")
    s.rs, s.rb = None, None
    s.carb = {**pam, **copy.deepcopy(sca)}
    compare(mon, "decay-equivalent", results(s)[1], want, f"run with scaled {which}")
    # interplay: another instance with default functions is not affected
    s.carb = dict(pam)
    _, d1 = results(s)
    mon.check("influence", differs(want, d1), f"decay functions {which} have no effect in run")


def decayval(case, mon, rng):
    """Values of the decay functions."""
    from ciceroscm.carbon_cycle import rfuns

    idtm = int(rng.choice([1, 6, 12, 24, 48]))
    rs, rb = D.rand_rs(rng, int(rng.integers(1, 8))), D.rand_rb(rng, int(rng.integers(1, 8)))
    it = np.arange(0, int(40 * max(max(rb["timescales"]), 5) * idtm), max(1, idtm // 6))
    it = it[: 400000]
    t = it / idtm
    cs, cb = np.array(rs["coeffs"]), np.array(rb["coeffs"])
    es = cs[0] / cs.sum() + sum(c / cs.sum() * np.exp(-t / x) for c, x in zip(cs[1:], rs["timescales"]))
    eb = sum(c / cb.sum() / x ** 2 * t * np.exp(-t / x) for c, x in zip(cb, rb["timescales"]))
    gs = rfuns.rs_function2(it, rs["coeffs"], rs["timescales"], idtm=idtm)
    gb = rfuns.rb_function2(it, rb["coeffs"], rb["timescales"], idtm=idtm)
    mon.close("decay-values", gs, es, 1e-10, 1e-13, f"rs {rs} idtm={idtm}")
    mon.close("decay-values", gb, eb, 1e-10, 1e-13, f"rb {rb} idtm={idtm}")
    mon.close("decay-normalised", gs[0], 1.0, 1e-12, 0, f"rs(0) {rs}")
    mon.check("decay-normalised", bool(gb[0] == 0), f"rb(0) = {gb[0]} {rb}")
    mon.check("decay-normalised", bool((np.diff(gs) <= 1e-12).all() and (gs >= 0).all()), f"rs not decaying {rs}")
    mon.check("decay-normalised", bool((gb >= 0).all()), f"rb negative {rb}")
    total = np.trapezoid(gb, t) if hasattr(np, "trapezoid") else np.trapz(gb, t)
    mon.close("decay-normalised", total, 1.0, 0.02, 0.0, f"integral of rb {rb} idtm={idtm}")
    for i in rng.integers(0, len(it), 5):
        mon.close("decay-values", rfuns.rs_function2(int(it[i]), rs["coeffs"], rs["timescales"], idtm=idtm), es[i], 1e-10, 1e-13, "rs scalar")
        mon.close("decay-values", rfuns.rb_function2(int(it[i]), rb["coeffs"], rb["timescales"], idtm=idtm), eb[i], 1e-10, 1e-13, "rb scalar")
    if idtm == 24:
        mon.same("decay-values", rfuns.rs_function2(it, rs["coeffs"], rs["timescales"]), gs, "rs, usual sub-steps")
        mon.same("decay-values", rfuns.rb_function2(it, rb["coeffs"], rb["timescales"]), gb, "rb, usual sub-steps")
        few = np.arange(0, 200, 7)
        mon.same("decay-values", [rfuns.rs_function(int(i)) for i in few], [rfuns.rs_function(int(i), 24) for i in few], "default rs, usual sub-steps")
        mon.same("decay-values", rfuns.rb_function(few), rfuns.rb_function(few, 24), "default rb, usual sub-steps")
    # default functions
    k = np.arange(0, 300 * idtm)
    t = k / idtm
    e1 = 0.12935 + 0.21898 * np.exp(-t / 0.034569) + 0.17003 * np.exp(-t / 0.26936) + 0.24071 * np.exp(-t / 0.96083) + 0.24093 * np.exp(-t / 4.9792)
    e2 = 0.022936 + 0.24278 * np.exp(-t / 1.2679) + 0.13963 * np.exp(-t / 5.2528) + 0.089318 * np.exp(-t / 18.601) + 0.03782 * np.exp(-t / 68.736) + 0.035549 * np.exp(-t / 232.3)
    mon.close("decay-values", [rfuns.rs_function(int(i), idtm) for i in k[:: max(1, idtm // 3)]], np.where(t < 2, e1, e2)[:: max(1, idtm // 3)], 1e-10, 1e-13, "default rs")
    eb = 0.70211 * np.exp(-0.35 * t) + 13.4141e-3 * np.exp(-t / 20) - 0.71846 * np.exp(-55 * t / 120) + 2.9323e-3 * np.exp(-t / 100)
    mon.close("decay-values", rfuns.rb_function(k, idtm), eb, 1e-10, 1e-13, "default rb")
    mon.sig("decayval", idtm, len(cs), len(cb))


# -- leaks --------------------------------------------------------------------
def stable(case, mon, rng):
    """A default run is the same before and after runs with everything changed."""
    probes = []
    for carbon in ("default", "box"):
        s = short(rng, carbon)
        s.thermal = ["default", "twolayer"][case["k"] % 2]
        probes.append((s, results(s)[1]))
    for _ in range(3):
        t = D.rand_setup(rng, str(rng.choice(["emis", "conc"])), perturb=True)
        t.rs, t.rb = D.rand_rs(rng), D.rand_rb(rng)
        t.emi["just_one"] = "CO2"
        c, _ = D.run(t)
        t.emi = {k: v for k, v in t.emi.items() if k != "just_one"}
        D.run(t, c)
        try:
            t.udm = {"lm": -3}
            D.run(t, c)
        except Exception:  # pylint: disable=broad-except
            pass
        mon.sig("stable", t.thermal, t.carbon, t.mode)
    for s, want in probes:
        compare(mon, "default-stable", results(s)[1], want, f"default run afterwards {s.describe()}")


def reuse(case, mon, rng):
    """Reused instance: other groups revert to defaults, the carbon group keeps what was given."""
    group = ["carb", "box"][case["k"] % 2]
    s = short(rng, "box" if group == "box" else "default")
    c, base = results(s)
    acc = {}
    for j in range(3):
        p = subset(rng, group, n=int(rng.integers(1, 4)))
        acc.update(p)
        s.carb = dict(p)
        s.emi = subset(rng, "emi", s.years, 3) if j == 1 else {}
        s.udm = D.rand_two(rng) if j == 1 else {}
        _, got = results(s, c)
        s.carb = dict(acc)
        _, want = results(s)
        compare(mon, "carbon-reuse", got, want, f"{group} run {j} given {p} after {acc}")
        mon.sig("reuse", group, j)
    s.emi, s.udm, s.carb = {}, {}, dict(DEFAULTS[group])
    compare(mon, "carbon-reuse", results(s, c)[1], base, f"{group} explicit defaults after {acc}")

"""Stage oracles over the record of one run, and recorders of internal calls."""
import contextlib
import functools

import numpy as np

from . import data as D
from . import ref as R


class Calls:
    """What the driver handed to the thermal model, year by year."""

    def __init__(self):
        self.fn, self.fs, self.vn, self.vs, self.w = [], [], [], [], []
        self.depth = 0


@contextlib.contextmanager
def record_thermal():
    """Record arguments of the yearly thermal step of every thermal model."""
    from ciceroscm.thermal_model.two_layer_ocean import TwoLayerOceanModel
    from ciceroscm.thermal_model.upwelling_diffusion_model import UpwellingDiffusionModel

    calls = Calls()
    saved = []

    def wrap_step(orig):
        @functools.wraps(orig)
        def step(self, *args, **kwargs):
            if calls.depth == 0:
                named = dict(zip(("forc_nh", "forc_sh", "fn_volc", "fs_volc"), args))
                named.update(kwargs)
                calls.fn.append(float(named["forc_nh"]))
                calls.fs.append(float(named["forc_sh"]))
                calls.vn.append(np.atleast_1d(np.array(named["fn_volc"], float)).copy())
                calls.vs.append(np.atleast_1d(np.array(named["fs_volc"], float)).copy())
            calls.depth += 1
            try:
                return orig(self, *args, **kwargs)
            finally:
                calls.depth -= 1

        return step

    def wrap_w(orig):
        @functools.wraps(orig)
        def setw(self, *args, **kwargs):
            calls.w.append(float((list(args) + list(kwargs.values()))[0]))
            return orig(self, *args, **kwargs)

        return setw

    for cls in (UpwellingDiffusionModel, TwoLayerOceanModel):
        for name, wrap in (("energy_budget", wrap_step), ("set_feedback_gregory", wrap_w)):
            if name in cls.__dict__:
                saved.append((cls, name, cls.__dict__[name]))
                setattr(cls, name, wrap(cls.__dict__[name]))
    try:
        yield calls
    finally:
        for cls, name, orig in saved:
            setattr(cls, name, orig)


def lagged(dt):
    return np.concatenate([[0.0], np.asarray(dt, float)[:-1]])


def co2_emissions(s):
    em = s.t_emis()
    return (em["CO2_FF"] + em["CO2_AFOLU"]).loc[s.years].to_numpy() + s.gas.at["CO2", "NAT_EM"]


def ref_carbon_for(s):
    """Reference carbon cycle for a setup (default model)."""
    carb = {k: v for k, v in s.carb.items()}
    rs, rb = carb.pop("rs_function", s.rs), carb.pop("rb_function", s.rb)
    carb["preindustrial_co2_conc"] = s.conc.at[s.nystart, "CO2"]
    return R.RefCarbon(len(s.years), s.idtm, carb, rs, rb)


def ref_co2(s, res):
    """CO2 of an emission run given its recorded temperatures."""
    T, E = lagged(res["dT_glob"]), co2_emissions(s)
    if s.carbon == "box":
        r = R.RefBox(s.carb)
        return np.array([r.year(E[i], T[i]) for i in range(len(E))]), r
    r = ref_carbon_for(s)
    return np.array([r.year(i, E[i], T[i]) for i in range(len(E))]), r


def carbon_stable(s, res, exp):
    """All years of the run are well conditioned (see R.stable_years)."""
    if s.carbon == "box":
        return True
    return R.stable_years(ref_carbon_for(s), co2_emissions(s), lagged(res["dT_glob"]), exp) == len(exp)


def ref_conc(s):
    return R.ref_concentrations(s.gas, s.t_emis(), s.conc, s.t_nat(), s.years, s.emstart,
                                s.mode == "conc", s.emi.get("lifetime_mode", "TAR"))


def ref_forc(s, conc, pert=True):
    ch4_ref = s.conc.at[s.emi.get("ref_yr", 2010), "CH4"]
    out = R.ref_forcing(s.gas, s.t_emis(), conc, ch4_ref, s.years, s.emi, s.t_luc())
    if pert and s.pert_forc is not None:
        for _, row in s.pert_forc.iterrows():
            name = "SO4_DIR" if row["component"] == "SO2" else row["component"]
            out[name][int(row["year"]) - s.nystart] += row["forcing"]
    return out


def thermal_series(res, kind):
    keys = (R.RefTwoLayer if kind == "twolayer" else R.RefUDM).OUT
    return {k: res[k] for k in keys if k in res}


def flat(res):
    """All series of a results dictionary: (key, column) -> array copy."""
    out = {}
    for k, v in res.items():
        if hasattr(v, "columns"):
            out[(k, "")] = np.array(v.index)
            for c in v.columns:
                out[(k, c)] = np.array(v[c])
        else:
            out[(k, "")] = np.array(v)
    return out


def same_results(mon, name, got, exp, ctx, upto=None):
    """Two flat results are identical (for the first years)."""
    mon.check(name, set(got) == set(exp), lambda: f"{ctx} different outputs {sorted(map(str, set(got) ^ set(exp)))[:6]}")
    for k in exp:
        if k in got:
            a, b = (got[k], exp[k]) if upto is None else (got[k][:upto], exp[k][:upto])
            mon.same(name, a, b, f"{ctx} {k}")


def snapshot(obj):
    """Deep comparable picture of an input object."""
    if hasattr(obj, "columns"):
        return ("frame", list(map(str, obj.columns)), np.array(obj.index), obj.to_numpy(copy=True), [str(t) for t in obj.dtypes])
    if isinstance(obj, np.ndarray):
        return ("array", obj.copy())
    if isinstance(obj, dict):
        return ("dict", {k: snapshot(v) for k, v in obj.items()})
    if isinstance(obj, (list, tuple)):
        return ("list", [snapshot(v) for v in obj])
    return ("value", type(obj).__name__, repr(obj))


def unchanged(old, new):
    """Everything the caller had is still as it was (extra dictionary keys are allowed)."""
    if old[0] != new[0]:
        return False
    if old[0] == "dict":
        return all(k in new[1] and unchanged(v, new[1][k]) for k, v in old[1].items())
    if old[0] == "list":
        return len(old[1]) == len(new[1]) and all(unchanged(a, b) for a, b in zip(old[1], new[1]))
    if old[0] == "frame":
        return (old[1] == new[1] and np.array_equal(old[2], new[2]) and old[4] == new[4] and frame_equal(old[3], new[3]))
    if old[0] == "array":
        return np.array_equal(old[1], new[1], equal_nan=True)
    return old == new


def frame_equal(a, b):
    if a.shape != b.shape:
        return False
    if a.dtype == object:
        return all(x == y or (x != x and y != y) for x, y in zip(a.ravel(), b.ravel()))
    return np.array_equal(a, b, equal_nan=a.dtype.kind == "f")

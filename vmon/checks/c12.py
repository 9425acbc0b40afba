"""C12: outputs are causal and do not depend on the run end."""
import copy

import numpy as np
import pandas as pd

from .. import data as D
from .. import hist as H
from .. import mons as M

RULE = (
    "A case is a pair of runs that agree on all input up to a year (the inputs of one table, of several, or all of them change "
    "afterwards; or the second run ends earlier, in steps or at a random year). All outputs up to that year must be identical, "
    "bit by bit for changed input, to rounding for earlier ends. Non-trivial: the outputs differ after the year; distinct by "
    "what changed, run mode, thermal and carbon model."
)
EXPECTED_MONITORS = ["past-unchanged", "prefix", "forcing-past", "forcing-prefix", "future-reacts", "carbon-past", "carbon-prefix"]
WHAT = ["emissions", "concentrations", "sun", "volc", "luc", "nat", "pert_em", "pert_forc", "all", "one-gas", "methane-precursors"]


def cases(rng, tier):
    mult = 2 if tier == "quick" else 10
    out = []
    for k in range(55 * mult):
        out.append({"kind": "late", "what": WHAT[k % len(WHAT)], "mode": ["emis", "emis", "conc"][k % 3], "carbon": ["default", "box"][k % 5 == 4],
                    "thermal": ["default", "twolayer"][k % 4 == 1], "seed": int(rng.integers(1 << 31)), "cost": 3})
    for k in range(30 * mult):
        out.append({"kind": "end", "mode": ["emis", "emis", "conc"][k % 3], "carbon": ["default", "box"][k % 5 == 4],
                    "thermal": ["default", "twolayer"][k % 4 == 1], "seed": int(rng.integers(1 << 31)), "cost": 3})
    for k in range(24 * mult):
        out.append({"kind": "carbon", "carbon": ["default", "default", "box"][k % 3], "k": k, "seed": int(rng.integers(1 << 31))})
    for k in range(24 * mult):
        out.append({"kind": "forc", "form": ["frame", "ndarray", "agents", "hemi"][k % 4], "thermal": ["default", "twolayer"][(k // 4) % 2],
                    "seed": int(rng.integers(1 << 31))})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"late": late, "end": end, "forc": forcing, "carbon": carbon}[case["kind"]](case, mon, rng)


def base(case, rng, pert):
    s = D.rand_setup(rng, case["mode"], thermal=case["thermal"], carbon=case["carbon"], perturb=pert)
    if 2000 < s.nystart or s.nyend < 2000:
        s.emi["lifetime_mode"] = str(rng.choice(["WIGLEY", "CONSTANT_12"]))
    return s


def reference_year(s):
    """Last of the documented reference years, which all years depend on."""
    y = s.emi.get("ref_yr", 2010)
    if s.mode == "emis" and s.emi.get("lifetime_mode", "TAR") == "TAR":
        y = max(y, 2000)
    return y


def idle(rng, s, upto=None):
    """Some gases are not emitted at all (or not before a year)."""
    cols = [c for c in s.conc.columns if c in s.emis.columns and c not in ("CO2", "CH4", "N2O")]
    hit = [str(c) for c in rng.choice(cols, int(rng.integers(1, 6)), replace=False)]
    s.emis.loc[s.emis.index < (upto or 9999), hit] = 0.0
    return hit


def late(case, mon, rng):
    pert = case["what"] in ("pert_em", "pert_forc", "all")
    s = base(case, rng, pert)
    s.sunvolc = 1 if case["what"] in ("sun", "volc", "all") else s.sunvolc
    if case["what"] in ("sun", "volc", "all"):
        s.sun = s.sun if s.sun is not None else D.series_frame(rng, 1, 0.2, "sun")
        if s.volc is None and s.volc_n is None:
            s.volc_n, s.volc_s = D.series_frame(rng, 12), D.series_frame(rng, 6)
    s.luc = s.luc if s.luc is not None else D.series_frame(rng, 1, 0.1, "luc")
    if case["what"] in ("nat", "all") and not s.nat:
        for comp in ("CH4", "N2O"):
            s.nat[comp] = D.default_nat(comp)
    if case["what"] in ("emissions", "all", "one-gas", "methane-precursors", "concentrations"):
        s.emi["ref_yr"] = int(rng.choice(D.ok_refs(s, s.years[:max(1, len(s.years) // 3)])))
        lo = reference_year(s)
    else:
        lo = s.nystart
    later = [y for y in s.years if y > lo]
    cut = int(rng.choice(later)) if later else s.nyend + 1  # first changed year
    what = case["what"]
    none = idle(rng, s) if rng.random() < (0.7 if what == "one-gas" else 0.2) else []
    if s.carbon == "default" and rng.random() < 0.3:
        s.rs, s.rb = D.rand_rs(rng), D.rand_rb(rng)
    t = copy.deepcopy(s)
    rows = t.emis.index >= cut
    if what in ("emissions", "all"):
        t.emis.loc[rows] = t.emis.loc[rows] * rng.uniform(0.3, 3, (int(rows.sum()), 1))
    if what == "one-gas":
        g = str(rng.choice(none or list(t.emis.columns)))
        t.emis.loc[rows, g] = t.emis.loc[rows, g] * 2 + 1
    if what == "methane-precursors":
        t.emis.loc[rows, ["NOx", "CO", "NMVOC", "CH4"]] *= 1.7
    if what in ("concentrations", "all"):
        t.conc.loc[t.conc.index >= cut] *= rng.uniform(0.9, 1.3, (int((t.conc.index >= cut).sum()), 1))
    if what in ("sun", "all"):
        t.sun.loc[cut:] += 0.4
    if what in ("volc", "all"):
        for key in ("volc", "volc_n", "volc_s"):
            if getattr(t, key) is not None:
                getattr(t, key).loc[cut:] -= 1.0
    if what in ("luc", "all"):
        t.luc.loc[cut:] -= 0.3
    if what in ("nat", "all"):
        for comp in t.nat:
            t.nat[comp].loc[cut:] *= 1.5
    if what in ("pert_em", "all"):
        hit = t.pert_em["year"] >= cut
        t.pert_em.loc[hit, "emission"] += 1.5
        t.pert_em = pd.concat([t.pert_em, pd.DataFrame({"component": ["CH4", "SO2"], "year": [s.nyend, min(cut, s.nyend)], "emission": [9.0, 9.0]})],
                              ignore_index=True) if cut <= s.nyend else t.pert_em
        if what == "pert_em":  # the reference years carry perturbations to all years
            lo = reference_year(s)
            if cut <= lo:
                t.pert_em = t.pert_em[~t.pert_em["year"].between(cut, lo)]
                s.pert_em = s.pert_em[~s.pert_em["year"].between(cut, lo)]
    if what in ("pert_forc", "all"):
        hit = t.pert_forc["year"] >= cut
        t.pert_forc.loc[hit, "forcing"] += 0.5
        if cut <= s.nyend:
            t.pert_forc = pd.concat([t.pert_forc, pd.DataFrame({"component": ["BC", "CFC-11"], "year": [cut, cut], "forcing": [0.7, 0.6]})], ignore_index=True)
    outs = s.mode == "emis" or rng.random() < 0.5
    _, a = D.run(s, folder=".", carbon_outputs=outs)
    fa = M.flat(a)
    _, b = D.run(t, folder=".", carbon_outputs=outs)
    fb = M.flat(b)
    k = cut - s.nystart
    ctx = f"{s.describe()} {what} changed from {cut} (ref {s.emi.get('ref_yr')})"
    M.same_results(mon, "past-unchanged", fb, fa, ctx, upto=k)
    diff = any(not np.array_equal(fa[x][k:], fb[x][k:], equal_nan=fa[x].dtype.kind == "f") for x in fa if x in fb) if k < len(s.years) else False
    if diff:
        mon.seen("future-reacts")
        mon.sig("late", what, case["mode"], s.thermal, s.carbon)
    mon.note = {"what": what, "from": cut, "run": s.describe()}


def close_prefix(mon, name, got, exp, ctx, k, exact):
    for key in exp:
        if key not in got:
            mon.fail(name, f"{ctx} no {key}")
            continue
        if exact or exp[key].dtype.kind not in "f":
            mon.same(name, got[key], exp[key][:k], f"{ctx} {key}")
        else:
            mon.close(name, got[key], exp[key][:k], 1e-10, 1e-12, f"{ctx} {key}")


def end(case, mon, rng):
    s = base(case, rng, bool(rng.random() < 0.4))
    need = [s.nystart + 3]
    s.emi["ref_yr"] = int(rng.choice(D.ok_refs(s, s.years[:max(1, len(s.years) // 2)])))
    need.append(reference_year(s))
    lo = max(need)
    s.frame_pad = {"emissions": (0, 40), "concentrations": (0, 40)} if rng.random() < 0.5 else s.frame_pad
    outs = bool(rng.random() < 0.5)
    if rng.random() < 0.3:
        idle(rng, s, int(rng.choice(s.years)))
    if s.carbon == "default" and rng.random() < 0.4:
        s.rs, s.rb = D.rand_rs(rng), D.rand_rb(rng)
    _, a = D.run(s, carbon_outputs=outs)
    fa = M.flat(a)
    ends = sorted({int(y) for y in rng.integers(lo, s.nyend + 1, 2)} | {lo})
    for e in ends:
        t = copy.deepcopy(s)
        t.nyend = e
        if t.pert_em is not None:
            t.pert_em = t.pert_em[t.pert_em["year"] <= e]
            t.pert_forc = t.pert_forc[t.pert_forc["year"] <= e]
        _, b = D.run(t, carbon_outputs=outs)
        # sums over arrays of other length may round differently in numpy
        close_prefix(mon, "prefix", M.flat(b), fa, f"{s.describe()} ended {e}", e - s.nystart + 1, False)
        mon.sig("end", case["mode"], s.thermal, s.carbon, outs, e == lo)


def forcing(case, mon, rng):
    from ciceroscm import CICEROSCM

    n, y0 = int(rng.integers(8, 60)), int(rng.integers(1750, 2050))
    years = list(range(y0, y0 + n))
    cut = int(rng.integers(1, n))
    fn, fs = H.history(rng, str(rng.choice(["sine", "walk", "asym", "noise"])), n)
    gn, gs = fn.copy(), fs.copy()
    gn[cut:] += rng.uniform(-3, 3, n - cut)
    gs[cut:] += 1.0
    w1 = rng.uniform(0, 1, n)
    w2 = w1.copy()
    w2[cut:] = 1 - w2[cut:]
    sun1, volc1 = D.series_frame(rng, 1, 0.2, "sun"), D.series_frame(rng, 12)
    sun2, volc2 = sun1.copy(), volc1.copy()
    if rng.random() < 0.5:
        sun2.loc[y0 + cut:] += 0.5
        volc2.loc[y0 + cut:] -= 0.5
    udm = D.rand_two(rng) if case["thermal"] == "twolayer" else D.rand_udm(rng)
    if case["form"] in ("frame", "agents"):
        udm["delta_lambda_aero"] = float(rng.uniform(-0.3, 0.6))
    sv = bool(rng.random() < 0.5)

    def go(f, g, w, sun, volc, e, tag):
        ys = years[:e]
        cfg = {"nystart": y0, "nyend": ys[-1], "thermal_model": case["thermal"]}
        if case["form"] == "ndarray":
            cfg["forc_data"] = f.copy()
        elif case["form"] == "frame":
            cfg["forc_data"] = pd.DataFrame({"total": (f + g) / 2, "FORC_NH": f, "FORC_SH": g, "w_aero": w}, index=years)
        else:
            cols = {"CO2": f, "BC": g, "OTHER": w} if case["form"] == "agents" else {"FORC_NH": f, "FORC_SH": g}
            df = pd.DataFrame(cols, index=years)
            df.index.name = "year"
            df.to_csv(f"{tag}.csv", float_format="%.17g")
            cfg["forc_file"] = f"{tag}.csv"
        if sv:
            cfg.update(sunvolc=1, rf_sun_data=sun.loc[years].copy(), rf_volc_data=volc.loc[years].copy())
        m = CICEROSCM(cfg)
        m._run({"results_as_dict": True}, pamset_udm=dict(udm))
        return M.flat(m.results)

    a = go(fn, fs, w1, sun1, volc1, n, "a")
    b = go(gn, gs, w2, sun2, volc2, n, "b")
    ctx = f"{case['form']} {case['thermal']} {y0}+{n} changed from index {cut} {udm}"
    M.same_results(mon, "forcing-past", b, a, ctx, upto=cut)
    if any(not np.array_equal(a[k][cut:], b[k][cut:]) for k in a):
        mon.seen("future-reacts")
    e = int(rng.integers(1, n + 1))
    c = go(fn, fs, w1, sun1, volc1, e, "c")
    close_prefix(mon, "forcing-prefix", c, a, f"{case['form']} {case['thermal']} ended after {e} of {n}", e, True)
    mon.sig("forc", case["form"], case["thermal"], sv)


def carbon(case, mon, rng):
    """The carbon cycles on their own, with all parameters and own decay functions."""
    from ciceroscm.carbon_cycle import carbon_cycle_mod, carbon_cycle_mod_box

    box = case["carbon"] == "box"
    cls = (carbon_cycle_mod_box if box else carbon_cycle_mod).CarbonCycleModel
    n = int(rng.integers(6, 70))
    y0 = int(rng.integers(1750, 2050))
    idtm = int(rng.choice([6, 12, 24]))
    pam = D.rand_box(rng) if box else D.rand_carb(rng)
    own = not box and rng.random() < 0.6
    if own:
        pam["rs_function"], pam["rb_function"] = D.rand_rs(rng), D.rand_rb(rng)
    em = np.cumsum(rng.normal(0.1, 0.5, n))
    T = np.cumsum(rng.normal(0.02, 0.1, n))
    cut = int(rng.integers(1, n))
    em2, T2 = em.copy(), T.copy()
    em2[cut:] += rng.uniform(-4, 9)
    if rng.random() < 0.5:
        T2[cut:] += rng.uniform(-1, 3)

    def go(e, t, length, back=None):
        m = cls({"idtm": idtm, "nystart": y0, "nyend": y0 + length - 1}, copy.deepcopy(pam))
        if back is not None:
            return np.asarray(m.back_calculate_emissions(back[:length].copy(), feedback_dict_series={"dtemp": t[:length].copy()}), float)
        return np.array([m.co2em2conc(y0 + i, e[i], feedback_dict={"dtemp": t[i]}) for i in range(length)])

    ctx = f"{case['carbon']} carbon cycle {y0}+{n} idtm={idtm} own functions {own}"
    a = go(em, T, n)
    b = go(em2, T2, n)
    mon.same("carbon-past", b[:cut], a[:cut], f"{ctx} emissions changed from index {cut}")
    if not np.array_equal(a[cut:], b[cut:]):
        mon.seen("future-reacts")
    e = int(rng.integers(1, n + 1))
    mon.close("carbon-prefix", go(em, T, e), a[:e], 1e-10, 1e-12, f"{ctx} ended after {e}")
    if not box:
        c = 278.0 * np.exp(np.cumsum(rng.normal(0.003, 0.004, n)))
        c2 = c.copy()
        c2[cut:] *= rng.uniform(0.95, 1.2)
        f = go(em, T, n, c)
        mon.same("carbon-past", go(em, T2, n, c2)[:cut], f[:cut], f"{ctx} concentrations changed from index {cut}")
        mon.close("carbon-prefix", go(em, T, e, c), f[:e], 1e-9, 1e-9, f"{ctx} back-calculation ended after {e}")
    mon.sig("carbon", case["carbon"], own, idtm)

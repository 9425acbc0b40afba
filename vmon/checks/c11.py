"""C11: a run depends only on its inputs."""
import copy

import numpy as np
import pandas as pd

from .. import clean
from .. import data as D
from .. import hist as H
from .. import mons as M

RULE = (
    "A case is a history of runs: one or several instances (emission, concentration, forcing runs) are run in random order with "
    "different thermal, emission and selection parameters, output forms and failing runs in between. Every run is compared bit by "
    "bit with the same run of a fresh instance; data and parameters of the caller and results handed out earlier are "
    "compared with snapshots. Other cases run neighbours, sets of inputs that differ in one item (one decay time, one gas "
    "parameter, one table, the file contents under the same names, the window ...), one after another in one process and compare each "
    "with its run in a process of its own. Non-trivial: at least one differing run came between; distinct by sequence of operations."
)
EXPECTED_MONITORS = ["identical-to-fresh", "caller-data", "caller-parameters", "earlier-results", "forcing-identical", "class-state", "identical-to-clean-process"]
OPS = ["other-udm", "other-emi", "just-one", "lifetime", "carbon-out", "files", "fail", "fail-thermal", "none-pams", "other-instance", "new-instance"]


def cases(rng, tier):
    mult = 1 if tier == "quick" else 10
    out = []
    for k in range(30 * mult):
        out.append({"kind": "model", "mode": ["emis", "conc"][k % 3 == 2], "pert": k % 2 == 0, "deliver": ["data", "mixed"][k % 4 == 3],
                    "seed": int(rng.integers(1 << 31)), "cost": 4})
    for k in range(12 * mult):
        out.append({"kind": "near", "mode": ["emis", "conc"][k % 3 == 2], "deliver": ["data", "file"][k % 2],
                    "seed": int(rng.integers(1 << 31)), "cost": 8})
    for k in range(16 * mult):
        out.append({"kind": "forc", "form": ["frame", "ndarray", "file"][k % 3], "seed": int(rng.integers(1 << 31))})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"model": model, "near": near, "forc": forcing}[case["kind"]](case, mon, rng)


class Prog:
    """One set of inputs with the parameters of its reference run."""

    def __init__(self, rng, mode, pert, deliver, tag):
        self.s = s = D.rand_setup(rng, mode, perturb=pert)
        s.nyend = min(s.nyend, max(2012, s.nystart + 25)) if s.nystart <= 2000 else s.nyend
        if s.pert_em is not None:
            s.pert_em = s.pert_em[s.pert_em["year"] <= s.nyend]
            s.pert_forc = s.pert_forc[s.pert_forc["year"] <= s.nyend]
        s.emi["ref_yr"] = int(min(D.ok_refs(s), key=lambda y: abs(y - s.years[len(s.years) // 2])))
        if deliver == "data":
            s.deliver = {}
        if s.carbon == "default":  # own decay functions, both, one or none of them
            r = rng.random()
            s.rs = D.rand_rs(rng) if r < 0.45 else None
            s.rb = D.rand_rb(rng) if 0.25 < r < 0.65 else None
        r = rng.random()  # a group not given at all
        if r < 0.2:
            s.carb = {} if r < 0.1 else None
        self.folder = f"in_{tag}"
        import os

        os.makedirs(self.folder, exist_ok=True)
        self.cfg = s.cfg(self.folder)
        self.snap = M.snapshot(self.cfg)
        self.n = len(s.years)

    def new(self):
        from ciceroscm import CICEROSCM

        return CICEROSCM(self.cfg)

    def go(self, mon, cscm, udm=None, emi=None, out=None):
        """Run with given or reference parameters, watch the caller's parameter dictionaries."""
        s = self.s
        udm = dict(s.udm) if udm is None else udm
        emi = dict(s.emi) if emi is None else emi
        carb = copy.deepcopy(s.carb)
        cfg = {"results_as_dict": True} if out is None else out
        given = [cfg, udm, emi, carb]
        snap = [M.snapshot(x) for x in given]
        try:
            cscm._run(cfg, pamset_udm=udm, pamset_emiconc=emi, pamset_carbon=carb)
        finally:
            for name, old, now in zip(("cfg", "pamset_udm", "pamset_emiconc", "pamset_carbon"), snap, given):
                mon.check("caller-parameters", M.unchanged(old, M.snapshot(now)), f"{s.describe()} {name} changed: {str(now)[:300]}")
        return cscm.results


def class_state():
    """Documented default parameter sets of the package."""
    from ciceroscm.carbon_cycle.carbon_cycle_mod import CarbonCycleModel as A
    from ciceroscm.carbon_cycle.carbon_cycle_mod_box import CarbonCycleModel as B
    from ciceroscm.thermal_model.two_layer_ocean import TwoLayerOceanModel as C
    from ciceroscm.thermal_model.upwelling_diffusion_model import UpwellingDiffusionModel as E

    out = {}
    for i, (cls, get) in enumerate(((A, "get_carbon_cycle_required_pamset"), (B, "get_carbon_cycle_required_pamset"),
                                    (C, "get_thermal_model_required_pamset"), (E, "get_thermal_model_required_pamset"))):
        out[i] = copy.deepcopy(getattr(cls, get)()) if hasattr(cls, get) else None
    return out


def other_udm(rng, s):
    return D.rand_two(rng) if s.thermal == "twolayer" else D.rand_udm(rng)


def model(case, mon, rng):
    state = class_state()
    p = Prog(rng, case["mode"], case["pert"], case["deliver"], "a")
    q = Prog(rng, str(rng.choice(["emis", "conc"])), bool(rng.random() < 0.5), "data", "b")
    ctx = f"{p.s.describe()} pert={case['pert']} {case['deliver']}"
    held = []  # results handed out earlier with their picture

    def keep(res, label):
        held.append((res, M.flat(res), label))

    first = p.new()
    keep(p.go(mon, first), "first run")
    want = held[0][1]
    qi = q.new()
    keep(q.go(mon, qi), "other instance")
    qwant = held[1][1]
    insts = [first]
    ops = [str(o) for o in rng.choice(OPS, 7)]
    for j, op in enumerate(ops):
        inst = insts[int(rng.integers(len(insts)))]
        if op == "other-udm":
            keep(p.go(mon, inst, udm=other_udm(rng, p.s)), op)
        elif op == "other-emi":
            emi = D.rand_emi(rng, D.ok_refs(p.s))
            emi["lifetime_mode"] = p.s.emi.get("lifetime_mode", "TAR")
            keep(p.go(mon, inst, emi=emi), op)
        elif op == "just-one":
            keep(p.go(mon, inst, emi=dict(p.s.emi, just_one=str(rng.choice(["CO2", "BC", "CH4", "LANDUSE"])))), op)
        elif op == "lifetime":
            keep(p.go(mon, inst, emi=dict(p.s.emi, lifetime_mode=str(rng.choice(["WIGLEY", "CONSTANT_12"])))), op)
        elif op == "carbon-out":
            keep(p.go(mon, inst, out={"results_as_dict": True, "carbon_cycle_outputs": True}), op)
        elif op == "files":
            import os

            os.makedirs("output", exist_ok=True)
            keep(p.go(mon, inst, out={"carbon_cycle_outputs": bool(rng.random() < 0.5)}), op)
        elif op == "fail":
            try:
                p.go(mon, inst, emi=dict(p.s.emi, just_one="NO_SUCH_GAS"))
            except KeyError:
                mon.seen("failed-run-between")
        elif op == "fail-thermal":
            # a run that ends half way
            if p.s.mode == "emis":
                try:
                    p.go(mon, inst, emi=dict(p.s.emi, ref_yr=9999))
                except KeyError:
                    mon.seen("failed-run-between")
        elif op == "none-pams":
            snap = dict(p.s.emi)
            if 2010 in p.s.years and (2000 in p.s.years or p.s.mode == "conc"):
                inst._run({"results_as_dict": True})
                keep(inst.results, op)
            mon.check("caller-parameters", snap == p.s.emi, "harness")
        elif op == "other-instance":
            res = q.go(mon, qi)
            M.same_results(mon, "identical-to-fresh", M.flat(res), qwant, f"{q.s.describe()} after {ops[:j]}")
            keep(res, op)
        elif op == "new-instance":
            insts.append(p.new())
        res = p.go(mon, inst)
        M.same_results(mon, "identical-to-fresh", M.flat(res), want, f"{ctx} after {ops[:j + 1]}")
        keep(res, f"rerun {j}")
    fresh = p.new()
    M.same_results(mon, "identical-to-fresh", M.flat(p.go(mon, fresh)), want, f"{ctx} fresh instance after {ops}")
    for res, pic, label in held:
        M.same_results(mon, "earlier-results", M.flat(res), pic, f"{ctx} results of {label}")
    for prog in (p, q):
        mon.check("caller-data", M.unchanged(prog.snap, M.snapshot(prog.cfg)),
                  lambda prog=prog: f"{prog.s.describe()} changed: " + str([k for k, v in prog.snap[1].items() if not M.unchanged(v, M.snapshot(prog.cfg.get(k)))]))
    mon.check("class-state", same_state(state, class_state()), f"{ctx} defaults of the package changed by runs")
    mon.sig(case["mode"], case["pert"], *sorted(set(ops)))
    mon.note = {"ops": ops, "runs_compared": len(held)}


def neighbour(rng, s, what):
    """A copy of the setup with one thing changed."""
    q = copy.deepcopy(s)
    col = lambda cand: str(rng.choice(cand))
    i = 0
    if what in ("rs-timescales", "rs-coeffs", "rb-timescales", "rb-coeffs"):
        fun, part = what.split("-")
        d = q.carb[f"{fun}_function"] if f"{fun}_function" in q.carb else getattr(q, fun)
        i = int(rng.integers(len(d[part])))
        d[part][i] = float(d[part][i] * rng.uniform(1.2, 2))
    elif what in ("rs-none", "rb-none"):
        fun = what.split("-")[0]
        setattr(q, fun, None)
        q.carb.pop(f"{fun}_function", None)
    elif what == "idtm":
        q.idtm = 12 if s.idtm == 24 else 24
    elif what == "nyend":
        q.nyend = s.nyend - 1
    elif what == "nystart":
        q.nystart = s.nystart + 1
    elif what == "emstart":
        q.emstart = s.emstart + 3
    elif what.startswith("gas-"):
        q.gas[what[4:]] = q.gas[what[4:]] * rng.uniform(0.8, 1.25, len(q.gas))
    elif what == "emissions":
        q.emis[[c for c in q.emis]] *= rng.uniform(0.7, 1.4, q.emis.shape[1])
    elif what == "concentrations":
        q.conc[[c for c in q.conc]] *= rng.uniform(0.95, 1.1, q.conc.shape[1])
    elif what in ("emissions-order", "concentrations-order"):
        # same first and last year and the same sums
        df = q.emis if what.startswith("em") else q.conc
        inner = [y for y in df.index if s.nystart < y < s.nyend]
        df.loc[inner] = df.loc[[int(y) for y in rng.permutation(inner)]].to_numpy()
    elif what == "nat":
        q.nat = {k: v * rng.uniform(0.8, 1.25) for k, v in q.nat.items()}
    elif what == "luc":
        q.luc = q.luc * rng.uniform(0.3, 2)
    elif what == "sun":
        q.sun = q.sun * rng.uniform(0.3, 2)
    elif what == "volc":
        q.volc_n, q.volc_s = q.volc_s, q.volc_n
    elif what == "sunvolc":
        q.sunvolc = 1 - s.sunvolc
    elif what == "udm":
        k = col(["lambda", "mixed", "foan", "foas", "ocean_efficacy"])
        q.udm[k] = q.udm[k] * rng.uniform(1.05, 1.3)
    elif what == "emi":
        k = col([k for k in q.emi if k.startswith("q")])
        q.emi[k] = q.emi[k] * rng.uniform(1.1, 1.6)
    elif what == "lifetime":
        q.emi["lifetime_mode"] = "WIGLEY" if s.emi.get("lifetime_mode") != "WIGLEY" else "TAR"
    elif what == "carb":
        k = col(["beta_f", "mixed_carbon", "solubility_sens", "t_half"])
        q.carb[k] = q.carb[k] * rng.uniform(1.1, 1.4)
    elif what == "perturb":
        q.pert_em["emission"] *= 1.7
        q.pert_forc["forcing"] *= 1.7
    elif what == "thermal":
        q.thermal = "twolayer" if s.thermal != "twolayer" else "default"
        q.udm = {}
    elif what == "mode":
        q.mode = "conc" if s.mode == "emis" else "emis"
    elif what == "components":
        gone = [g for g in q.gas.index if q.gas.at[g, "CONC_UNIT"] == "ppt" and not q.gas.at[g, "BETA"] == 0][-4:]
        q.gas = q.gas.drop(index=[g for g in gone if g.startswith("HFC")])
    return q


NEAR = ["rs-none", "rb-none", "rs-timescales", "rs-coeffs", "rb-timescales", "rb-coeffs", "idtm", "nyend", "nystart", "emstart", "gas-ALPHA", "gas-TAU1",
        "gas-BETA", "gas-NAT_EM", "gas-SARF_TO_ERF", "emissions", "concentrations", "emissions-order", "concentrations-order", "nat", "luc", "sun", "volc", "sunvolc", "udm", "emi",
        "lifetime", "carb", "perturb", "thermal", "mode", "components"]


def near(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], carbon="default", sunvolc=1, nat=True, perturb=True, lifetime="TAR", idtm=24)
    s.nystart, s.nyend = int(rng.integers(1970, 1996)), int(rng.integers(2004, 2012))
    s.emstart = int(rng.integers(s.nystart, 1999))
    s.emi["ref_yr"] = int(rng.choice(D.ok_refs(s, range(1999, 2004))))
    s.pert_em, s.pert_forc = D.rand_perturbations(rng, s)
    for df in (s.pert_em, s.pert_forc):
        df["year"] = rng.integers(s.nystart + 1, s.nyend, len(df))
    s.volc, s.volc_n, s.volc_s = None, D.series_frame(rng, 12), D.series_frame(rng, int(rng.choice([1, 4, 12])))
    s.sun, s.luc = D.series_frame(rng, 1, 0.2, "sun"), D.series_frame(rng, 1, 0.1, "luc")
    s.deliver = {k: case["deliver"] for k in s.deliver}
    if rng.random() < 0.5:
        s.rs, s.rb = D.rand_rs(rng), D.rand_rb(rng)
    else:
        s.carb["rs_function"], s.carb["rb_function"] = D.rand_rs(rng), D.rand_rb(rng)
    names = [str(x) for x in rng.permutation(NEAR)[:6]]
    if not any(x.startswith("r") for x in names):
        names[0] = str(rng.choice(["rs-timescales", "rb-timescales", "rs-coeffs", "rb-coeffs"]))
    if not {"rs-none", "rb-none"} & set(names):
        names[1] = str(rng.choice(["rs-none", "rb-none"]))
    if not {"emissions-order", "concentrations-order"} & set(names):
        names[-1] = "concentrations-order" if case["mode"] == "conc" else str(rng.choice(["emissions-order", "concentrations-order"]))
    progs = [("base", s)] + [(x, neighbour(rng, s, x)) for x in names]
    want = clean.results([q for _, q in progs])
    done = []
    for j in rng.permutation(len(progs) * 2):
        name, q = progs[int(j) % len(progs)]
        exp = want[int(j) % len(progs)]
        if "error" in exp:
            raise RuntimeError(f"{q.describe()} {name} failed in a fresh process: {exp['error']}")
        _, res = D.run(copy.deepcopy(q), carbon_outputs=q.mode == "emis")
        got = M.flat(res)
        done.append(name)
        mon.check("identical-to-clean-process", set(got) == set(exp), lambda: f"different outputs {set(got) ^ set(exp)}")
        for k in exp:
            if k in got:
                if np.asarray(exp[k]).dtype.kind in "fi":
                    mon.close("identical-to-clean-process", got[k], exp[k], 1e-9, 1e-12, f"{q.describe()} {name} {k} after runs {done[:-1]}")
                else:
                    mon.same("identical-to-clean-process", got[k], exp[k], f"{q.describe()} {name} {k}")
    for name in names:
        mon.sig("near", case["mode"], case["deliver"], name)
    mon.note = {"order": done}


def same_state(a, b):
    return set(a) == set(b) and all(repr(a[k]) == repr(b[k]) for k in a)


def forcing(case, mon, rng):
    from ciceroscm import CICEROSCM

    n, y0 = int(rng.integers(6, 50)), int(rng.integers(1750, 2050))
    years = list(range(y0, y0 + n))
    fn, fs = H.history(rng, str(rng.choice(["sine", "walk", "asym"])), n)
    cfgs = []
    for thermal in ("default", "twolayer"):
        cfg = {"nystart": y0, "nyend": years[-1], "thermal_model": thermal}
        if case["form"] == "ndarray":
            cfg["forc_data"] = fn.copy()
        else:
            df = pd.DataFrame({"total": 0.5 * (fn + fs), "FORC_NH": fn, "FORC_SH": fs, "w_aero": rng.uniform(0, 1, n)}, index=years)
            if case["form"] == "frame":
                cfg["forc_data"] = df
            else:
                df.index.name = "year"
                df.to_csv(f"f_{thermal}.csv", float_format="%.17g")
                cfg["forc_file"] = f"f_{thermal}.csv"
        if rng.random() < 0.6:
            cfg.update(sunvolc=1, rf_sun_data=D.series_frame(rng, 1, 0.2, "sun").loc[years], rf_volc_data=D.series_frame(rng, 12).loc[years])
        cfgs.append(cfg)
    snaps = [M.snapshot(c) for c in cfgs]
    insts = [CICEROSCM(c) for c in cfgs]
    pams = [[D.rand_udm(rng) for _ in range(3)], [D.rand_two(rng) for _ in range(3)]]
    for p in pams[0] + pams[1]:
        if rng.random() < 0.5:
            p["delta_lambda_aero"] = float(rng.uniform(-0.3, 0.5))
    pams[0].append({})
    pams[1].append({})
    want, held = {}, []
    order = [(int(rng.integers(2)), int(rng.integers(4))) for _ in range(14)]
    for i, j in order:
        par = dict(pams[i][j])
        insts[i]._run({"results_as_dict": True}, pamset_udm=par)
        mon.check("caller-parameters", all(par.get(k) == v for k, v in pams[i][j].items()), f"pamset_udm changed {par}")
        pic = M.flat(insts[i].results)
        held.append((insts[i].results, pic))
        if (i, j) not in want:
            fresh = CICEROSCM(cfgs[i])
            fresh._run({"results_as_dict": True}, pamset_udm=dict(pams[i][j]))
            want[(i, j)] = M.flat(fresh.results)
        M.same_results(mon, "forcing-identical", pic, want[(i, j)], f"{case['form']} order {order} now {(i, j)}")
    for res, pic in held:
        M.same_results(mon, "earlier-results", M.flat(res), pic, "forcing run results")
    for old, cfg in zip(snaps, cfgs):
        mon.check("caller-data", M.unchanged(old, M.snapshot(cfg)), f"{case['form']} forcing configuration changed")
    mon.sig("forc", case["form"], len(want))

"""C21: plots show what the run computed and change nothing."""
import copy
import os

import numpy as np
import pandas as pd

from .. import data as D
from .. import hist as H
from .. import mons as M

RULE = (
    "A case runs with plotting while every figure is recorded at the moment it is saved (file, titles, labels, data of every line). "
    "The record is judged against the results of an independent run to a dictionary without plots: every component that has emissions, "
    "concentrations or forcing appears exactly once in the figures of its kind, under its name, with the years and values of the run, "
    "thermal series under their labels; files are PNGs in the plots folder; text output is byte for byte that of the run without "
    "plots; a second run with other inputs does not mix with the first. Non-trivial: a run with at least one figure; distinct by run "
    "mode, models, number of components and folder."
)
EXPECTED_MONITORS = ["figure-files", "thermal-lines", "component-once", "component-values", "unit-label", "results-unchanged", "second-run"]
SERIES = {"emissions": "em", "concentrations": "conc", "forcing": "forc"}
NOT_SHOWN = ["NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"]  # of the forcing: precursors


def cases(rng, tier):
    mult = 1 if tier == "quick" else 10
    out = []
    for k in range(12 * mult):
        out.append({"kind": "run", "mode": ["emis", "conc"][k % 2], "thermal": ["default", "twolayer"][(k // 2) % 2], "carbon": ["default", "box"][k % 5 == 4],
                    "gas": ["new", "wmo", "v1", "ar6"][(k // 4 + k) % 4], "drop": [0, 10, 12, 20, 30, 5][k % 6], "seed": int(rng.integers(1 << 31)), "cost": 5})
    for k in range(40 * mult):  # many numbers of components; the picture is not rendered
        out.append({"kind": "run", "light": True, "mode": ["emis", "conc"][int(rng.integers(2))], "thermal": ["default", "twolayer"][int(rng.integers(2))],
                    "carbon": ["default", "box"][k % 5 == 4], "gas": ["new", "wmo", "v1", "ar6"][int(rng.integers(4))], "drop": k,
                    "seed": int(rng.integers(1 << 31)), "cost": 2})
    for k in range(6 * mult):
        out.append({"kind": "forc", "thermal": ["default", "twolayer"][k % 2], "seed": int(rng.integers(1 << 31))})
    return out


class Recorder:
    """What every figure held when it was saved. With leave, figures stay open, as they do for a user; light only makes the file."""

    def __init__(self, leave=False, light=False):
        self.figs, self.leave, self.light = [], leave, light

    def __enter__(self):
        import matplotlib
        from matplotlib.figure import Figure

        matplotlib.use("Agg")
        self.cls, self.orig = Figure, Figure.savefig
        rec = self

        def savefig(fig, fname, *args, **kwargs):
            axes = []
            for ax in fig.axes:
                lines = [{"label": ln.get_label(), "x": np.array(ln.get_xdata(), float), "y": np.array(ln.get_ydata(), float)} for ln in ax.get_lines()]
                axes.append({"title": ax.get_title(), "left": ax.get_title(loc="left"), "ylabel": ax.get_ylabel(), "lines": lines})
            rec.figs.append({"file": os.path.abspath(os.fspath(fname)), "axes": axes})
            if rec.light:
                with open(fname, "wb") as fwrite:
                    fwrite.write(b"\x89PNG\r\n\x1a\n")
                return None
            kwargs["dpi"] = 20  # the picture itself is not looked at
            return rec.orig(fig, fname, *args, **kwargs)

        Figure.savefig = savefig
        self.layout = Figure.tight_layout
        Figure.tight_layout = lambda *a, **k: None  # slow, and says nothing about the data
        return self

    def __exit__(self, *_):
        import matplotlib.pyplot as plt

        self.cls.savefig = self.orig
        self.cls.tight_layout = self.layout
        if not self.leave:
            plt.close("all")


def by_name(figs, stem):
    return [f for f in figs if os.path.basename(f["file"]).startswith(stem)]


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"run": scenario, "forc": forcing}[case["kind"]](case, mon, rng)


def is_png(fn):
    if not os.path.exists(fn):
        return False
    with open(fn, "rb") as fread:
        return fread.read(8) == b"\x89PNG\r\n\x1a\n"


def thermal(mon, figs, res, years, ctx):
    for stem, names in (("ohc", ["OHC700", "OHCTOT"]), ("rib", ["RIB_glob", "RIB_N", "RIB_S"]),
                        ("temp", ["dT_glob", "dT_glob_air", "dT_glob_sea", "dT_NH", "dT_NH_air", "dT_NH_sea", "dT_SH", "dT_SH_air", "dT_SHsea"])):
        mine = by_name(figs, stem)
        if not mon.check("figure-files", len(mine) == 1, f"{ctx} {len(mine)} figures {stem}"):
            continue
        seen = set()
        for ax in mine[0]["axes"]:
            for ln in ax["lines"]:
                name = ln["label"] if ln["label"] in names else ax["title"]
                if not mon.check("thermal-lines", name in names and name in res, f"{ctx} {stem} unknown line {ln['label']!r} under {ax['title']!r}"):
                    continue
                seen.add(name)
                mon.close("thermal-lines", ln["y"], res[name], 1e-9, 1e-12, f"{ctx} {stem} {name}")
                mon.same("thermal-lines", ln["x"], np.array(years, float), f"{ctx} {stem} {name} years")
        mon.check("thermal-lines", seen == {n for n in names if n in res}, f"{ctx} {stem} shows {sorted(seen)}")


def components(mon, figs, res, years, gas, ctx):
    for key, stem in SERIES.items():
        df = res[key]
        unit = {"em": "EM_UNIT", "conc": "CONC_UNIT"}.get(stem)
        want = [c for c in df.columns if c != "Year"]
        if unit:
            want = [c for c in want if gas[unit].get(c, "-") != "X"]
        else:
            want = [c for c in want if c not in NOT_SHOWN]
        mine = by_name(figs, stem + "_")
        mon.check("figure-files", sorted(os.path.basename(f["file"]) for f in mine) == [f"{stem}_{i + 1}.png" for i in range(len(mine))] and mine,
                  f"{ctx} figures {[os.path.basename(f['file']) for f in mine]}")
        shown = []
        for f in mine:
            for ax in f["axes"]:
                if not ax["lines"]:
                    continue
                name = "Total_forcing" if ax["title"] == "Total anthropogenic" else ax["title"]
                shown.append(name)
                mon.check("component-once", len(ax["lines"]) == 1, f"{ctx} {len(ax['lines'])} lines for {name} in {f['file']}")
                if name not in df.columns:
                    continue
                mon.close("component-values", ax["lines"][0]["y"], df[name], 1e-9, 1e-12, f"{ctx} {stem} {name}")
                mon.same("component-values", ax["lines"][0]["x"], np.array(years, float), f"{ctx} {stem} {name} years")
                if unit and name in gas.index:
                    mon.check("unit-label", str(gas.at[name, unit]) in ax["ylabel"], f"{ctx} {stem} {name} unit label {ax['ylabel']!r}")
        mon.check("component-once", sorted(shown) == sorted(want), lambda: f"{ctx} {key}: missing {sorted(set(want) - set(shown))[:6]} "
                  f"extra {sorted(set(shown) - set(want))[:6]} twice {sorted({c for c in shown if shown.count(c) > 1})[:6]}")


def where(rng):
    cfg, folder = {}, "output"
    if rng.random() < 0.7:
        folder = str(rng.choice(["somewhere", os.path.join("deep", "er")]))
        cfg["output_folder"] = folder if rng.random() < 0.5 else os.path.abspath(folder)
    os.makedirs(folder)
    if rng.random() < 0.3:
        os.makedirs(os.path.join(folder, "plots"))
    if rng.random() < 0.4:
        cfg["output_prefix"] = "pre"
    return cfg, folder


def texts(folder):
    out = {}
    for f in sorted(os.listdir(folder)):
        p = os.path.join(folder, f)
        if os.path.isfile(p):
            with open(p, "rb") as fread:
                out[f] = fread.read()
    return out


def pams(s):
    return {"pamset_udm": dict(s.udm), "pamset_emiconc": dict(s.emi), "pamset_carbon": D._deep(s.carb)}


def fewer(rng, s, n):
    """Without n of the halogenated gases."""
    ppt = [g for g in s.gas.index if s.gas.at[g, "CONC_UNIT"] == "ppt"]
    drop = [str(g) for g in rng.permutation(ppt)[:n]]
    s.gas = s.gas.drop(drop)
    s.conc = s.conc.drop(columns=drop)
    if rng.random() < 0.6:  # emissions may have columns without a row in the gas table
        s.emis = s.emis.drop(columns=drop)
    for p in ("pert_em", "pert_forc"):
        setattr(s, p, None)


def gas_table(s):
    gas = s.gas.copy()
    if "CO2" in gas.index:
        for c in ("CO2_FF", "CO2_AFOLU"):
            gas.loc[c] = gas.loc["CO2"]
        gas.loc["CO2_lu"] = gas.loc["CO2"]
    return gas


def scenario(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], thermal=case["thermal"], carbon=case["carbon"], gas=case["gas"])
    fewer(rng, s, case["drop"])
    os.makedirs("inp")
    outs = bool(rng.random() < 0.4)
    _, res = D.run(s, folder="inp", carbon_outputs=outs)
    res = {k: copy.deepcopy(v) for k, v in res.items()}
    cfg, folder = where(rng)
    if outs:
        cfg["carbon_cycle_outputs"] = True
    ctx = f"{s.describe()} gas {case['gas']} {len(s.gas)} rows {cfg}"
    bare = "bare"
    os.makedirs(bare)
    D.make(s, "inp")._run({**cfg, "output_folder": bare}, **pams(s))
    cscm = D.make(s, "inp")
    with Recorder(leave=True, light=case.get("light", False)) as rec:
        cscm._run(dict(cfg), make_plot=True, **pams(s))
    mon.check("results-unchanged", texts(folder) == texts(bare), f"{ctx} text output differs from that of the run without plots")
    pdir = os.path.abspath(os.path.join(folder, "plots"))
    mon.check("figure-files", all(os.path.dirname(f["file"]) == pdir and is_png(f["file"]) for f in rec.figs)
              and len({f["file"] for f in rec.figs}) == len(rec.figs), f"{ctx} files {[f['file'] for f in rec.figs]}")
    thermal(mon, rec.figs, res, s.years, ctx)
    components(mon, rec.figs, res, s.years, gas_table(s), ctx)
    # again with other parameters
    t = copy.deepcopy(s)
    t.udm = D.rand_two(rng) if s.thermal == "twolayer" else D.rand_udm(rng)
    t.emi = {**D.rand_emi(rng, D.ok_refs(s)), **{k: v for k, v in s.emi.items() if k == "lifetime_mode"}}
    _, res2 = D.run(t, folder="inp")
    with Recorder(light=case.get("light", False)) as rec2:
        cscm._run(dict(cfg), make_plot=True, **pams(t))
    before = len(mon.viol)
    thermal(mon, rec2.figs, res2, s.years, f"second run {ctx}")
    components(mon, rec2.figs, res2, s.years, gas_table(s), f"second run {ctx}")
    mon.check("second-run", len(mon.viol) == before, "second run shows something else")
    mon.sig("run", s.mode, s.thermal, s.carbon, len(s.gas), folder)
    mon.note = {"figures": [os.path.basename(f["file"]) for f in rec.figs], "lines": sum(len(a["lines"]) for f in rec.figs for a in f["axes"])}


def forcing(case, mon, rng):
    from ciceroscm import CICEROSCM

    n, y0 = int(rng.integers(6, 60)), int(rng.integers(1750, 2080))
    years = list(range(y0, y0 + n))
    fn, fs = H.history(rng, str(rng.choice(["sine", "walk", "asym"])), n)
    udm = D.rand_two(rng) if case["thermal"] == "twolayer" else D.rand_udm(rng)
    df = pd.DataFrame({"total": (fn + fs) / 2, "FORC_NH": fn, "FORC_SH": fs}, index=years)
    base = {"nystart": y0, "nyend": years[-1], "thermal_model": case["thermal"], "forc_data": df}
    x = CICEROSCM(dict(base))
    x._run({"results_as_dict": True}, pamset_udm=dict(udm))
    res = {k: copy.deepcopy(v) for k, v in x.results.items()}
    cfg, folder = where(rng)
    if rng.random() < 0.5:
        cfg["results_as_dict"] = True
    ctx = f"forcing run {case['thermal']} {y0}+{n} {cfg}"
    with Recorder(leave=True) as rec:
        x._run(dict(cfg), pamset_udm=dict(udm), make_plot=True)
    for k, v in M.flat(res).items():
        mon.close("results-unchanged", M.flat(x.results).get(k), v, 1e-12, 0, f"{ctx} {k}")
    pdir = os.path.abspath(os.path.join(folder, "plots"))
    mon.check("figure-files", sorted(os.path.relpath(f["file"], pdir) for f in rec.figs) == ["ohc.png", "rib.png", "temp.png"]
              and all(is_png(f["file"]) for f in rec.figs), f"{ctx} files {[f['file'] for f in rec.figs]}")
    thermal(mon, rec.figs, res, years, ctx)
    y = CICEROSCM({**base, "forc_data": df * 0.5})
    y._run({"results_as_dict": True}, pamset_udm=dict(udm))
    res2 = {k: copy.deepcopy(v) for k, v in y.results.items()}
    with Recorder() as rec2:
        y._run(dict(cfg), pamset_udm=dict(udm), make_plot=True)
    before = len(mon.viol)
    thermal(mon, rec2.figs, res2, years, f"second {ctx}")
    mon.check("second-run", len(mon.viol) == before, "second run shows something else")
    mon.sig("forc", case["thermal"], folder, "results_as_dict" in cfg)

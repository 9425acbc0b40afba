"""C13: files and in-memory data are interchangeable."""
import copy
import os

import numpy as np
import pandas as pd

from .. import data as D
from .. import hist as H
from .. import mons as M

RULE = (
    "Input cases run the same inputs several times with every input delivered as data object, every one as file, one switched at a "
    "time, with tables longer than the run on either side, and compare all outputs. Output cases run once to a dictionary and once "
    "to files (random folder and prefix) and parse every written file back; the set of new files is checked. Non-trivial: window "
    "not starting in 1750 or longer tables, distinct by switched input, run mode, thermal model and output options."
)
EXPECTED_MONITORS = ["input-equivalent", "year-alignment", "output-equal", "output-set", "forcing-output", "forcing-input", "dict-writes-nothing"]
INPUTS = ["gaspam", "emissions", "concentrations", "nat_ch4", "nat_n2o", "rf_sun", "rf_volc", "rf_volc_n", "rf_volc_s", "rf_luc", "perturb_em", "perturb_forc"]
TEMP = ["dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea", "dT_SHsea"]


def cases(rng, tier):
    mult = 2 if tier == "quick" else 10
    out = []
    for k in range(26 * mult):
        out.append({"kind": "in", "mode": ["emis", "emis", "conc"][k % 3], "volc": ["both", "split", "none"][k % 3 if k % 2 else (k // 2) % 3],
                    "thermal": ["default", "twolayer"][k % 4 == 1], "pert": k % 2 == 0, "seed": int(rng.integers(1 << 31)), "cost": 5})
    for k in range(24 * mult):
        out.append({"kind": "out", "mode": ["emis", "emis", "conc"][k % 3], "carbon": ["default", "box"][k % 4 == 3], "outs": k % 2 == 0,
                    "thermal": ["default", "twolayer"][(k // 2) % 2], "seed": int(rng.integers(1 << 31)), "cost": 3})
    for k in range(16 * mult):
        out.append({"kind": "forc", "thermal": ["default", "twolayer"][k % 2], "form": ["ndarray", "frame", "hemi"][k % 3],
                    "seed": int(rng.integers(1 << 31))})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"in": inputs, "out": outputs, "forc": forcing}[case["kind"]](case, mon, rng)


def compare(mon, name, got, exp, ctx):
    mon.check(name, set(got) == set(exp), lambda: f"{ctx} outputs differ {sorted(map(str, set(got) ^ set(exp)))[:5]}")
    for k in exp:
        if k in got:
            mon.close(name, got[k], exp[k], 1e-8, 1e-11, f"{ctx} {k}")


def setup(case, rng):
    s = D.rand_setup(rng, case["mode"], thermal=case["thermal"], perturb=case["pert"], sunvolc=1, nat=True)
    s.sun = D.series_frame(rng, 1, 0.2, "sun")
    s.luc = D.series_frame(rng, 1, 0.1, "luc")
    s.volc = s.volc_n = s.volc_s = None
    if case["volc"] == "both":
        s.volc = D.series_frame(rng, int(rng.choice([1, 3, 12])))
    elif case["volc"] == "split":
        s.volc_n, s.volc_s = D.series_frame(rng, 12), D.series_frame(rng, int(rng.choice([1, 4, 12])))
    s.deliver = {}
    s.frame_pad = {}
    return s


def inputs(case, mon, rng):
    s = setup(case, rng)
    names = [k for k in INPUTS if not (k == "rf_volc" and s.volc is None) and not (k in ("rf_volc_n", "rf_volc_s") and s.volc_n is None)
             and not (k.startswith("perturb") and not case["pert"])]
    _, res = D.run(s)
    base = M.flat(res)
    trials = [("all files", {k: "file" for k in names}, {})]
    for k in rng.choice(names, 3, replace=False):
        trials.append((f"{k} as file", {str(k): "file"}, {}))
    k = str(rng.choice(names))
    trials.append((f"all but {k} as file", {x: "file" for x in names if x != k}, {}))
    pads = {"emissions": (int(rng.choice([0, 7, 60])), int(rng.choice([0, 5, 50]))), "concentrations": (int(rng.choice([0, 4, 60])), int(rng.choice([0, 9, 50])))}
    trials.append((f"longer tables {pads} data", {}, pads))
    trials.append((f"longer tables {pads} files", {"emissions": "file", "concentrations": "file"}, pads))
    for label, deliver, pad in trials:
        t = copy.deepcopy(s)
        t.deliver, t.frame_pad = deliver, pad
        _, r = D.run(t)
        compare(mon, "year-alignment" if pad else "input-equivalent", M.flat(r), base, f"{s.describe()} {label}")
        mon.sig("in", label.split(" {")[0], case["mode"], s.thermal)
    whole(case, mon, rng, s)
    mon.note = {"run": s.describe(), "trials": [t[0] for t in trials]}


def whole(case, mon, rng, s):
    """Tables with whole numbers, held as integers or as floating point numbers."""
    t = copy.deepcopy(s)
    for name in ("emis", "conc"):
        df = getattr(t, name)
        cols = [c for c in df.columns if 3 < df[c].abs().mean() < 1e6]
        for c in rng.choice(cols, min(len(cols), 8), replace=False):
            df[c] = np.round(df[c])
        for c in ("CH4", "SF6"):
            if c in df.columns:
                df[c] = np.ceil(df[c])
    t.emis["SF6"] = float(rng.integers(1, 9))
    for c in ("NAT_EM", "TAU1", "BETA"):
        if rng.random() < 0.6:
            t.gas[c] = np.ceil(t.gas[c])
    t.deliver, t.frame_pad = {}, {}
    _, r = D.run(t)
    base = M.flat(r)
    u = copy.deepcopy(t)
    for name in ("emis", "conc", "gas"):
        df = getattr(u, name)
        setattr(u, name, df.astype({c: int for c in df.columns if c not in ("EM_UNIT", "CONC_UNIT") and (df[c] == np.round(df[c])).all()}))
    _, r = D.run(u)
    compare(mon, "input-equivalent", M.flat(r), base, f"{s.describe()} whole numbers as integers")
    mon.sig("in", "integers", case["mode"], s.thermal)


def listing(root="."):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.normpath(os.path.join(d, f))
            out[p] = (os.path.getsize(p), os.stat(p).st_mtime_ns)
    return out


def pick_folder(rng):
    """(cfg entries, directory, prefix)"""
    r = int(rng.integers(5))
    cfg, folder, prefix = {}, "output", "output"
    if r in (1, 3):
        folder = "some_where"
        cfg["output_folder"] = folder
    elif r == 4:
        folder = os.path.join("deep", "er")
        cfg["output_folder"] = os.path.abspath(folder)
    if r in (2, 3, 4):
        prefix = str(rng.choice(["run7", "a_b", "x.y"]))
        cfg["output_prefix"] = prefix
    os.makedirs(folder, exist_ok=True)
    return cfg, folder, prefix


def same_table(mon, name, fn, exp, ctx):
    """File has exactly these columns with these values to printed precision."""
    if not os.path.exists(fn):
        mon.check(name, False, f"{ctx} no file {fn}")
        return
    got = pd.read_csv(fn, sep="\t")
    cols = [c for c in exp if len(np.shape(exp[c]))]
    mon.check("output-columns", set(got.columns) == set(cols), lambda: f"{ctx} {fn} columns {sorted(set(got.columns) ^ set(cols))[:6]}")
    for c in cols:
        if c in got.columns:
            mon.close(name, got[c], exp[c], 6e-6, 1e-300, f"{ctx} {fn} {c}")


def frame_dict(df):
    return {c: df[c].to_numpy() for c in df.columns}


def thermal_files(mon, name, folder, prefix, res, years, ctx):
    y = np.array(years)
    stem = os.path.join(folder, prefix)
    same_table(mon, name, f"{stem}_temp.txt", {"Year": y, **{k: res[k] for k in TEMP if k in res}}, ctx)
    same_table(mon, name, f"{stem}_rib.txt", {"Year": y, **{k: res[k] for k in ("RIB_glob", "RIB_N", "RIB_S") if k in res}}, ctx)
    same_table(mon, name, f"{stem}_ohc.txt", {"Year": y, "OHC700": res["OHC700"], "OHCTOT": res["OHCTOT"]}, ctx)
    same_table(mon, name, f"{stem}_sunvolc.txt", {"Year": y, **{k: res[k] for k in ("Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH")}}, ctx)


def outputs(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], thermal=case["thermal"], carbon=case["carbon"], perturb=bool(rng.random() < 0.4))
    os.makedirs("inp", exist_ok=True)
    cscm = D.make(s, "inp")
    before = listing()
    _, res = D.run(s, cscm, carbon_outputs=case["outs"])
    mon.check("dict-writes-nothing", listing() == before, f"{s.describe()} run to dictionary wrote files")
    res = dict(res)
    cfg, folder, prefix = pick_folder(rng)
    before = listing()
    if case["outs"]:
        cfg["carbon_cycle_outputs"] = True
    elif rng.random() < 0.5:
        cfg["carbon_cycle_outputs"] = False
    if rng.random() < 0.3:
        cfg["results_as_dict"] = False
    inst = cscm if rng.random() < 0.5 else D.make(s, "inp2" if not os.makedirs("inp2", exist_ok=True) else "")
    before = listing()
    inst._run(cfg, pamset_udm=dict(s.udm), pamset_emiconc=dict(s.emi), pamset_carbon=D._deep(s.carb))
    new = {p for p in listing() if p not in before}
    ctx = f"{s.describe()} {cfg}"
    kinds = ["em", "conc", "forc", "temp", "rib", "ohc", "sunvolc"] + (["carbon"] if case["outs"] else [])
    want = {os.path.normpath(os.path.join(folder, f"{prefix}_{k}.txt")) for k in kinds}
    mon.check("output-set", new == want, f"{ctx} files {sorted(new ^ want)}")
    stem = os.path.join(folder, prefix)
    for key, short in (("emissions", "em"), ("concentrations", "conc"), ("forcing", "forc"), ("carbon cycle", "carbon")):
        if key in res:
            same_table(mon, "output-equal", f"{stem}_{short}.txt", frame_dict(res[key]), ctx)
    thermal_files(mon, "output-equal", folder, prefix, res, s.years, ctx)
    mon.sig("out", case["mode"], s.thermal, s.carbon, case["outs"], folder, prefix != "output")
    mon.note = {"files": sorted(want)}


def forcing(case, mon, rng):
    from ciceroscm import CICEROSCM

    n, y0 = int(rng.integers(6, 60)), int(rng.integers(1750, 2080))
    years = list(range(y0, y0 + n))
    fn, fs = H.history(rng, str(rng.choice(["sine", "walk", "asym"])), n)
    udm = D.rand_two(rng) if case["thermal"] == "twolayer" else D.rand_udm(rng)
    base = {"nystart": y0, "nyend": years[-1], "thermal_model": case["thermal"]}
    sun, volc = D.series_frame(rng, 1, 0.2, "sun"), D.series_frame(rng, 12)
    D.write_col(sun, "sun.txt")
    D.write_col(volc, "volc.txt")
    if case["form"] == "ndarray":
        tot = fn
        np.savetxt("f.txt", tot, fmt="%.17g")
        a, b = {"forc_data": tot.copy()}, {"forc_file": "f.txt"}
    else:
        df = pd.DataFrame({"total": (fn + fs) / 2, "FORC_NH": fn, "FORC_SH": fs}, index=years)
        df.index.name = "year"
        (df if case["form"] == "frame" else df.drop(columns="total")).to_csv("f.csv", float_format="%.17g")
        a, b = {"forc_data": df}, {"forc_file": "f.csv"}
    if rng.random() < 0.6:
        a.update(sunvolc=1, rf_sun_data=sun.loc[years], rf_volc_data=volc.loc[years])
        b.update(sunvolc=1, rf_sun_file="sun.txt", rf_volc_file="volc.txt")
    x, y = CICEROSCM({**base, **a}), CICEROSCM({**base, **b})
    x._run({"results_as_dict": True}, pamset_udm=dict(udm))
    y._run({"results_as_dict": True}, pamset_udm=dict(udm))
    ctx = f"{case['form']} {case['thermal']} {y0}+{n} sv={'sunvolc' in a}"
    compare(mon, "forcing-input", M.flat(y.results), M.flat(x.results), ctx)
    res = dict(x.results)
    cfg, folder, prefix = pick_folder(rng)
    before = listing()
    x._run(cfg, pamset_udm=dict(udm))
    new = {p for p in listing() if p not in before}
    want = {os.path.normpath(os.path.join(folder, f"{prefix}_{k}.txt")) for k in ("forc", "temp", "rib", "ohc", "sunvolc")}
    mon.check("output-set", new == want, f"{ctx} {cfg} files {sorted(new ^ want)}")
    thermal_files(mon, "forcing-output", folder, prefix, res, years, ctx)
    same_table(mon, "forcing-output", os.path.join(folder, f"{prefix}_forc.txt"), {"Year": np.array(years), "Total_forcing": res["Total_forcing"]}, ctx)
    mon.sig("forc", case["form"], case["thermal"], "sunvolc" in a)

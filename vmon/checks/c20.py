"""C20: inconsistent input is rejected; names and tables are read right."""
import copy
import json
import os

import numpy as np
import pandas as pd

from .. import data as D
from .. import mons as M
from .. import ref as R

RULE = (
    "A case injects one defect (missing file, unit that disagrees in any column of an emission or concentration file, unknown model, "
    "malformed decay function or configuration file) into an otherwise valid input and watches the exception, or feeds valid input "
    "in unusual forms (column order, extra columns, fallback files, systematic compound names, region maps) and compares with "
    "independent tables. Non-trivial: the defect was really present / the name has halogens; distinct by kind, file, column and entry point."
)
EXPECTED_MONITORS = ["missing-file", "nat-fallback", "wrong-unit", "valid-accepted", "unknown-model", "bad-decay", "bad-flat",
                     "rejected-without-trace", "bad-json", "json-read", "halogen-count", "halogen-run", "regional-table", "regional-run"]


def cases(rng, tier):
    mult = 6 if tier == "quick" else 8
    out = []

    def add(kind, n, **kw):
        for k in range(n * mult):
            out.append({"kind": kind, "k": k, "seed": int(rng.integers(1 << 31)), **kw})

    add("files", 10)
    add("natural", 4, cost=2)
    add("units", 24, cost=2)
    add("models", 4)
    add("decays", 12)
    add("aftermath", 6, cost=3)
    add("jsons", 6)
    add("halogens", 10)
    add("halorun", 8, cost=3)
    add("regions", 8)
    add("regrun", 6, cost=3)
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    globals()[case["kind"]](case, mon, rng)


def start(cfg):
    from ciceroscm import CICEROSCM

    return CICEROSCM(cfg)


def valid(rng, mode=None, **kw):
    s = D.rand_setup(rng, mode or str(rng.choice(["emis", "conc"])), pams=False, **kw)
    s.nystart, s.nyend = 1990, 2012
    s.emi = {}
    s.emstart = int(rng.choice([1990, 1995]))
    return s


# -- files ----------------------------------------------------------------------
def files(case, mon, rng):
    s = valid(rng, sunvolc=1, perturb=True, thermal="twolayer")
    s.pert_em = s.pert_em[(s.pert_em["year"] >= 1990) & (s.pert_em["year"] <= 2012)]
    s.pert_forc = s.pert_forc[(s.pert_forc["year"] >= 1990) & (s.pert_forc["year"] <= 2012)]
    for key in ("gaspam", "emissions", "concentrations", "perturb_em", "perturb_forc", "rf_luc", "rf_sun"):
        s.deliver[key] = "file"
    s.volc, s.volc_n, s.volc_s = None, None, None
    s.sun = D.series_frame(rng, 1, 0.2, "sun")
    s.luc = D.series_frame(rng, 1, 0.1, "luc")
    if case["k"] % 2:
        s.volc = D.series_frame(rng, 12)
        s.deliver["rf_volc"] = "file"
    else:
        s.volc_n, s.volc_s = D.series_frame(rng, 12), D.series_frame(rng, 3)
        s.deliver["rf_volc_n"] = s.deliver["rf_volc_s"] = "file"
    good = s.cfg()
    start(dict(good))
    mon.seen("valid-accepted")
    keys = [k for k in good if k.endswith("_file") and not k.startswith("nat_")]
    for key in keys:
        for bad in ("nowhere.txt", os.path.join("no", "such", "folder", "x.txt"), good[key] + "x"):
            c = dict(good)
            c[key] = bad
            mon.raises("missing-file", FileNotFoundError, lambda c=c: start(c), f"{key}={bad}")
        mon.sig("missing", key)
    # forcing run
    for extra in ({}, {"sunvolc": 1}, {"thermal_model": "twolayer"}):
        c = {"nystart": 1990, "nyend": 2000, "forc_file": "not_there.txt", **extra}
        mon.raises("missing-file", FileNotFoundError, lambda c=c: start(c), f"forc_file {extra}")
    mon.sig("missing", "forc_file")
    # a file that vanished between writing the configuration and the run
    key = keys[int(rng.integers(len(keys)))]
    os.remove(good[key])
    mon.raises("missing-file", FileNotFoundError, lambda: start(dict(good)), f"{key} removed")


def natural(case, mon, rng):
    """Natural emission files fall back to the standard location, else it is an error."""
    s = valid(rng, "emis", thermal="twolayer", nat=True, carbon="default", sunvolc=0)
    s.deliver = {"nat_ch4": "file", "nat_n2o": "file"}
    comp = ["ch4", "n2o"][case["k"] % 2]
    good = s.cfg()
    a = start(dict(good))
    a._run({"results_as_dict": True})
    c = dict(good)
    c[f"nat_{comp}_file"] = "missing_nat.txt"
    mon.raises("missing-file", FileNotFoundError, lambda: start(dict(c)), f"nat_{comp}_file without fallback")
    os.makedirs(os.path.join("input_OTHER", "NATEMIS"))
    with open(good[f"nat_{comp}_file"], encoding="utf8") as fr:
        text = fr.read()
    with open(os.path.join("input_OTHER", "NATEMIS", f"natemis_{comp}.txt"), "w", encoding="utf8") as fw:
        fw.write(text)
    b = start(dict(c))
    b._run({"results_as_dict": True})
    M.same_results(mon, "nat-fallback", b.results, a.results, f"nat_{comp} from standard location")
    mon.sig("natural", comp)


# -- units ----------------------------------------------------------------------
def read_text(fn):
    with open(fn, encoding="utf8") as fr:
        return fr.read().split("\n")


def write_text(fn, lines):
    with open(fn, "w", encoding="utf8") as fw:
        fw.write("\n".join(lines))


WRONG = ["Tg", "Gg", "Mt", "kt", "Pg_C", "Mt_CO2", "ppm", "ppb", "ppt", "X", "Tg_N", "Mt_N", "Tg_SO2", "TG", "gg", "-"]


def wrong_unit(rng, unit):
    """Another unit, or nearly the same."""
    near = [unit.lower(), unit.upper(), unit.swapcase(), unit + "_C", unit[:-1] + "b", unit + "/yr", unit.split("_")[0]]
    words = near if rng.random() < 0.5 else WRONG
    return str(rng.choice([w for w in words if w and w != unit]))


def units(case, mon, rng):
    s = valid(rng, gas=["wmo", "new", "v1", "ar6"][case["k"] % 4], thermal="twolayer", sunvolc=0, regional=case["k"] % 5 == 1)
    s.deliver["emissions"] = s.deliver["concentrations"] = "file"
    # extra columns that are not in the gas table may have any unit
    s.emis["ZZ_EXTRA"] = 1.0
    s.conc["ZZ_EXTRA"] = 1.0
    good = s.cfg()
    start(dict(good))
    mon.seen("valid-accepted")
    which = ["emissions", "concentrations"][case["k"] // 2 % 2]
    fn = good[f"{which}_file"]
    lines = read_text(fn)
    head, unit = lines[0].split("\t"), lines[1].split("\t")
    cols = [i for i in range(1, len(head)) if head[i] in s.gas.index]
    picks = list(rng.choice(cols, min(len(cols), 10), replace=False))
    if which == "emissions":
        picks += [i for i in cols if head[i] == "CO2"]
    for i in picks:
        u = list(unit)
        u[i] = wrong_unit(rng, unit[i])
        write_text(f"bad_{which}.txt", [lines[0], "\t".join(u)] + lines[2:])
        c = dict(good)
        c[f"{which}_file"] = f"bad_{which}.txt"
        mon.raises("wrong-unit", ValueError, lambda c=c: start(dict(c)), f"{which} {head[i]} column {i} given in {u[i]} instead of {unit[i]}")
        mon.sig("unit", which, head[i], "regional" if "_" in head[i] else "")
    # the gas table disagrees
    g = str(rng.choice([head[i] for i in cols]))
    gas = s.gas.copy()
    col = "EM_UNIT" if which == "emissions" else "CONC_UNIT"
    gas.at[g, col] = "other"
    c = {k: v for k, v in good.items() if not k.startswith("gaspam")}
    if rng.random() < 0.5:
        c["gaspam_data"] = gas
    else:
        D.write_gas(gas, "bad_gas.txt")
        c["gaspam_file"] = "bad_gas.txt"
    if not (which == "concentrations" and s.gas.at[g, "CONC_UNIT"] == "-"):
        mon.raises("wrong-unit", ValueError, lambda: start(dict(c)), f"gas table has another {col} for {g}")
        mon.sig("unit", "gas table", col)
    # two columns with exchanged units
    diff = [(i, j) for i in cols for j in cols if i < j and unit[i] != unit[j]]
    if diff:
        i, j = diff[int(rng.integers(len(diff)))]
        u = list(unit)
        u[i], u[j] = u[j], u[i]
        write_text(f"bad_{which}.txt", [lines[0], "\t".join(u)] + lines[2:])
        c = dict(good)
        c[f"{which}_file"] = f"bad_{which}.txt"
        mon.raises("wrong-unit", ValueError, lambda: start(dict(c)), f"{which} units of {head[i]} and {head[j]} exchanged")
    # emissions of a concentration driven gas may be missing, units of the others still count
    vanilla = [g for g in s.gas.index if s.gas.at[g, "CONC_UNIT"] == "ppt" and g in s.emis.columns]
    gone = str(rng.choice(vanilla))
    t = copy.deepcopy(s)
    t.mode = "conc"
    t.emis = t.emis.drop(columns=[gone])
    os.makedirs("less", exist_ok=True)
    less = t.cfg("less")
    start(dict(less))
    mon.seen("valid-accepted")
    fn = less[f"{which}_file"]
    lines = read_text(fn)
    head, unit = lines[0].split("\t"), lines[1].split("\t")
    cols = [i for i in range(1, len(head)) if head[i] in s.gas.index]
    i = int(rng.choice(cols))
    unit[i] = wrong_unit(rng, unit[i])
    write_text("less_bad.txt", [lines[0], "\t".join(unit)] + lines[2:])
    less[f"{which}_file"] = "less_bad.txt"
    mon.raises("wrong-unit", ValueError, lambda: start(dict(less)), f"without emissions of {gone}, {which} {head[i]} in {unit[i]}")
    mon.sig("unit", "species missing", which)


# -- models and functions ---------------------------------------------------------
def models(case, mon, rng):
    from ciceroscm.component_factory_functions import create_carbon_cycle_model, create_thermal_model

    s = valid(rng, "emis", sunvolc=0, thermal="default", carbon="default")
    s.deliver = {}
    good = s.cfg()
    names = ["", "Default", "DEFAULT", "two_layer", "twolayer ", "box2", "Box", "udm", "none", "default\n", "joos"]
    names += ["".join(rng.choice(list("abcxyz_"), 6)) for _ in range(4)]
    for n in names:
        for key in ("thermal_model", "carbon_cycle_model"):
            c = {**good, key: n}
            mon.raises("unknown-model", ValueError, lambda c=c: start(c), f"{key}={n!r}")
        mon.raises("unknown-model", ValueError, lambda n=n: create_thermal_model(n), f"thermal {n!r}")
        mon.raises("unknown-model", ValueError, lambda n=n: create_carbon_cycle_model(n, {"idtm": 24, "nystart": 1990, "nyend": 2000}), f"carbon {n!r}")
        c = {"nystart": 1990, "nyend": 2000, "forc_data": np.ones(11), "thermal_model": n}
        mon.raises("unknown-model", ValueError, lambda c=c: start(c), f"forcing run with thermal model {n!r}")
    # the models of one kind are not of the other kind
    mon.raises("unknown-model", ValueError, lambda: start({**good, "thermal_model": "box"}), "thermal box")
    mon.raises("unknown-model", ValueError, lambda: start({**good, "carbon_cycle_model": "twolayer"}), "carbon twolayer")
    for th in ("default", "twolayer"):
        for ca in ("default", "box"):
            inst = start({**good, "thermal_model": th, "carbon_cycle_model": ca})
            mon.check("valid-accepted", inst is not None)
            s.thermal, s.carbon = th, ca
    mon.sig("models", case["k"])


def malform(rng, kind, which):
    """A decay function with one defect."""
    f = D.rand_rs(rng) if which == "rs" else D.rand_rb(rng)
    c, t = f["coeffs"], f["timescales"]
    if kind == "longer":
        c.append(0.3)
    elif kind == "shorter":
        c.pop()
    elif kind == "longer-time":
        t.append(50.0)
    elif kind == "negative-time":
        t[int(rng.integers(len(t)))] *= -1
    elif kind == "zero-time":
        t[int(rng.integers(len(t)))] = 0.0
    elif kind == "negative-coef":
        c[int(rng.integers(len(c)))] *= -1
    elif kind == "exchanged":  # right total, wrong kind of function
        f = D.rand_rb(rng, 3) if which == "rs" else D.rand_rs(rng, 2)
    if rng.random() < 0.3:
        f = {k: np.array(v) for k, v in f.items()}
    return f


KINDS = ["longer", "shorter", "longer-time", "negative-time", "zero-time", "negative-coef", "exchanged"]


def decays(case, mon, rng):
    from ciceroscm.carbon_cycle.carbon_cycle_mod import CarbonCycleModel

    emi = {"idtm": 12, "nystart": 1990, "nyend": 2000}
    s = valid(rng, "emis", sunvolc=0, thermal="twolayer", carbon="default")
    s.deliver = {}
    good = s.cfg()
    which = ["rs", "rb"][case["k"] % 2]
    key = f"{which}_function"
    inst = start(dict(good))
    for kind in KINDS:
        bad = malform(rng, kind, which)
        p = {key: bad}
        if rng.random() < 0.4:  # the other function is fine
            other = "rb" if which == "rs" else "rs"
            p[f"{other}_function"] = D.rand_rb(rng) if other == "rb" else D.rand_rs(rng)
        ctx = f"{kind} {p}"
        mon.raises("bad-decay", ValueError, lambda: CarbonCycleModel(dict(emi), copy.deepcopy(p)), f"stand-alone {ctx}")
        m = CarbonCycleModel(dict(emi))
        mon.raises("bad-decay", ValueError, lambda: m.reset_co2_hold(copy.deepcopy(p)), f"at reset {ctx}")
        mon.raises("bad-decay", ValueError, lambda: start({**good, **copy.deepcopy(p)}), f"configuration {ctx}")
        mon.raises("bad-decay", ValueError, lambda: inst._run({"results_as_dict": True}, pamset_carbon=copy.deepcopy(p)), f"run {ctx}")
        if kind in ("longer", "shorter", "longer-time", "negative-time", "zero-time", "negative-coef"):
            flat = {}
            flat.update({f"{which}_coef{i}": float(v) for i, v in enumerate(bad["coeffs"])})
            flat.update({f"{which}_tim{i}": float(v) for i, v in enumerate(bad["timescales"])})
            mon.raises("bad-flat", ValueError, lambda: CarbonCycleModel(dict(emi), dict(flat)), f"flat {ctx}")
            mon.raises("bad-flat", ValueError, lambda: inst._run({"results_as_dict": True}, pamset_carbon=dict(flat)), f"flat run {ctx}")
        mon.sig("decay", which, kind)
    only = {f"{which}_coef0": 0.4} if which == "rb" else {"rs_coef0": 0.4, "rs_coef1": 0.2, "rs_coef2": 0.1}
    mon.raises("bad-flat", ValueError, lambda: CarbonCycleModel(dict(emi), only), f"flat {only}")
    only = {f"{which}_tim0": 4.0}
    mon.raises("bad-flat", ValueError, lambda: CarbonCycleModel(dict(emi), only), f"flat {only}")


def aftermath(case, mon, rng):
    """A rejected function leaves the instance as it was."""
    from ciceroscm.carbon_cycle.carbon_cycle_mod import CarbonCycleModel

    s = valid(rng, "emis", sunvolc=0, thermal="twolayer", carbon="default")
    s.deliver = {}
    if rng.random() < 0.5:
        s.carb = {"rs_function": D.rand_rs(rng), "rb_function": D.rand_rb(rng)}
    inst, res = D.run(s)
    want = M.flat(res)
    n = 15
    emi = {"idtm": 12, "nystart": 1990, "nyend": 1990 + n - 1}
    m = CarbonCycleModel(dict(emi), copy.deepcopy(s.carb))
    co2 = [m.co2em2conc(1990 + i, 5.0 + i) for i in range(n)]
    for which in ("rs", "rb"):
        kind = KINDS[int(rng.integers(len(KINDS)))]
        p = {f"{which}_function": malform(rng, kind, which)}
        mon.raises("bad-decay", ValueError, lambda: inst._run({"results_as_dict": True}, pamset_carbon=copy.deepcopy(p)), f"run {kind} {p}")
        inst._run({"results_as_dict": True}, pamset_udm={}, pamset_emiconc={}, pamset_carbon={})
        got = M.flat(inst.results)
        for k in want:
            mon.close("rejected-without-trace", got[k], want[k], 1e-9, 1e-11, f"run after rejected {kind} {which}: {k}")
        mon.raises("bad-decay", ValueError, lambda: m.reset_co2_hold(copy.deepcopy(p)), f"reset {kind}")
        m.reset_co2_hold()
        mon.close("rejected-without-trace", [m.co2em2conc(1990 + i, 5.0 + i) for i in range(n)], co2, 1e-10, 1e-10, f"CO2 after rejected {kind}")
        mon.sig("aftermath", which, kind, bool(s.carb))


def jsons(case, mon, rng):
    from ciceroscm.parallel.distributionrun import DistributionRun

    cfgs = [{"Index": str(i), "pamset_udm": {"lambda": float(rng.uniform(0.3, 1))}, "pamset_emiconc": {"qo3": float(rng.uniform(0.1, 1))}}
            for i in range(int(rng.integers(1, 6)))]
    bad = [{}, {"meta_info": {"a": 1}}, {"configs": cfgs}, {"Configurations": cfgs}, cfgs[0], 3, "text", None, 2.5, True]
    for i, b in enumerate(bad):
        fn = f"bad{i}.json"
        with open(fn, "w", encoding="utf8") as fw:
            json.dump(b, fw)
        mon.raises("bad-json", ValueError, lambda fn=fn: DistributionRun(None, json_file_name=fn), f"configuration file {str(b)[:80]}")
        mon.sig("json", i)
    for text in ("", "[{", "{'a': 1}", "[1, 2,]", json.dumps(cfgs)[:-1]):
        with open("broken.json", "w", encoding="utf8") as fw:
            fw.write(text)
        mon.raises("bad-json", ValueError, lambda: DistributionRun(None, json_file_name="broken.json"), f"broken json {text[:20]!r}")
    for meta in (None, {"note": "x", "n": 3}):
        for form in ("list", "dict"):
            obj = cfgs if form == "list" else ({"configurations": cfgs} if meta is None else {"configurations": cfgs, "meta_info": meta})
            with open("good.json", "w", encoding="utf8") as fw:
                json.dump(obj, fw)
            d = DistributionRun(None, json_file_name="good.json")
            mon.check("json-read", d.cfgs == cfgs, f"{form}: {str(d.cfgs)[:200]}")
            mon.check("json-read", d.meta_info == (meta if form == "dict" else None), f"{form}: meta {d.meta_info}")


# -- chemistry --------------------------------------------------------------------
def refrigerant(rng):
    """Name and number of chlorine atoms of a random (hydro)chlorofluorocarbon."""
    while True:
        c = int(rng.integers(1, 5))
        dbl = int(c > 1 and rng.random() < 0.2)
        sites = 2 * c + 2 - 2 * dbl
        f = int(rng.integers(0, min(sites, 9)))
        h = int(rng.integers(0, min(sites - f, 8)))
        cl = sites - f - h
        if cl > 0:
            break
    num = dbl * 1000 + (c - 1) * 100 + (h + 1) * 10 + f
    suffix = str(rng.choice(["", "", "a", "b", "ca", "cb", "aa", "zd" if dbl else "da"]))
    return f"{'HCFC' if h else 'CFC'}-{num}{suffix}", cl


def formula(rng):
    """Name with chlorine and bromine groups."""
    parts, cl, br = [], 0, 0
    for _ in range(int(rng.integers(1, 4))):
        grp = "C"
        h = int(rng.integers(0, 4))
        if h:
            grp += "H" + (str(h) if h > 1 else "")
        for sym in rng.permutation(["Cl", "Br", "F"]):
            n = int(rng.choice([0, 0, 1, 2, 3, 4]))
            if n:
                grp += str(sym) + (str(n) if n > 1 else "")
                cl += n * (sym == "Cl")
                br += n * (sym == "Br")
        parts.append(grp)
    return "".join(parts), cl, br


PLAIN = ["HFC134a", "HFC23", "HFC4310mee", "SF6", "NF3", "CF4", "C2F6", "cC4F8", "SO2F2", "BC", "OC", "CO", "CO2", "CH4", "N2O", "NOx",
         "BMB_AEROS", "BMB_AEROS_BC", "BC_ASIA", "SO4_IND", "STRAT_O3", "OTHER", "LANDUSE", "NH3"]


def halogens(case, mon, rng):
    from ciceroscm import pub_utils as P

    names, cl, br = list(PLAIN), {}, {}
    for _ in range(150):
        n, c = refrigerant(rng)
        names.append(n)
        cl[n] = c
        mon.check("halogen-count", P.find_num_cl_in_hcfc(n) == c, f"{n}: {P.find_num_cl_in_hcfc(n)} chlorine atoms, expected {c}")
    for n, c in (("CFC-11", 3), ("CFC-12", 2), ("CFC-113", 3), ("CFC-114", 2), ("CFC-115", 1), ("HCFC-22", 1), ("HCFC-141b", 2),
                 ("HCFC-123", 2), ("HCFC-142b", 1), ("HCFC-225ca", 2), ("HCFC-225cb", 2), ("CFC-112a", 4), ("HCFC-133a", 1), ("HCFC-1233zd", 1)):
        names.append(n)
        cl[n] = c
    for _ in range(60):
        d = [int(rng.integers(1, 4)), int(rng.integers(0, 7)), int(rng.integers(0, 4)), int(rng.integers(1, 5))]
        n = "H-" + "".join(map(str, d))
        names.append(n)
        br[n] = d[3]
        if d[2]:
            cl[n] = d[2]
    for _ in range(120):
        n, c, b = formula(rng)
        names.append(n)
        if c:
            cl[n] = c
        if b:
            br[n] = b
    names = [names[i] for i in rng.permutation(len(names))]
    got = P.make_cl_and_br_dictionaries(pd.Index(names) if case["k"] % 2 else names)
    for what, g, e in (("chlorine", got[0], cl), ("bromine", got[1], br)):
        g = {k: v for k, v in g.items() if v != 0}
        for k in sorted(set(g) | set(e)):
            mon.check("halogen-count", g.get(k, 0) == e.get(k, 0), f"{k}: {g.get(k, 0)} {what} atoms, expected {e.get(k, 0)}")
    mon.sig("halogens", case["k"], len(cl), len(br))


def halorun(case, mon, rng):
    """The atoms counted act on stratospheric ozone in runs."""
    s = D.rand_setup(rng, "conc", gas="new", regional=False, perturb=False, thermal="twolayer", sunvolc=0)
    new = ["HCFC-225ca", "CH2BrCl", "CHBr2Cl", "CH2ClCH2Cl", "H-2311", "CHBr3", refrigerant(rng)[0], "CHBrCl2"]
    old = [str(g) for g in rng.choice([g for g in s.gas.index if s.gas.at[g, "CONC_UNIT"] == "ppt"], len(new), replace=False)]
    ren = {o: n for o, n in zip(old, new) if n not in s.gas.index}
    s.gas = s.gas.rename(index=ren)
    s.conc, s.emis = s.conc.rename(columns=ren), s.emis.rename(columns=ren)
    for n in ren.values():
        s.conc[n] = s.conc[n] * float(rng.uniform(5, 20))
    _, res = D.run(s)
    exp = M.ref_forc(s, D.conc_table(res))
    got = D.forc_table(res)
    mon.close("halogen-run", got["STRAT_O3"], exp["STRAT_O3"], 1e-8, 1e-11, f"{s.describe()} with {sorted(ren.values())}")
    if np.abs(exp["STRAT_O3"]).max() > 0:
        mon.sig("halorun", *sorted(ren.values()))


# -- regional table -----------------------------------------------------------------
def regions(case, mon, rng):
    from ciceroscm import pub_utils as P

    gas = D.base_gas(str(rng.choice(["wmo", "v1", "ar6", "new"])))
    gas = D.vary_gas(rng, gas)
    aer = [str(a) for a in rng.permutation(["BC", "OC", "SO2", "NH3", "NOx"])][: int(rng.integers(1, 5))]
    regs = ["EAS", "SAM", "NAF", "NAM", "RBU", "SAS", "EUR", "GLO"]
    reg = pd.DataFrame(rng.normal(size=(len(regs), len(aer))) * 1e-11, index=[regs[i] for i in rng.permutation(len(regs))], columns=aer)
    default = {"ASIA": "EAS", "LAM": "SAM", "MAF": "NAF", "OECD": "NAM", "REF": "RBU"}
    mapping, kw = default, {}
    if case["k"] % 2:
        mapping = {f"R{i}": str(r) for i, r in enumerate(rng.choice(regs, int(rng.integers(1, 9))))}
        kw["reg_mapping"] = dict(mapping)
    conv = 1e9
    if case["k"] % 4 >= 2:
        conv = float(rng.uniform(1e6, 1e10))
        kw["unit_conversion"] = conv
    g0, r0 = gas.copy(), reg.copy()
    out = P.make_regional_aerosol_gaspamdata(gas, reg, **kw)
    mon.check("regional-table", gas.equals(g0) and reg.equals(r0), "input tables changed")
    want = list(g0.index) + [f"{a}_{k}" for a in aer for k in mapping]
    mon.check("regional-table", sorted(out.index) == sorted(want), f"rows {sorted(set(out.index) ^ set(want))}")
    mon.check("regional-table", list(out.columns) == list(g0.columns), f"columns {list(out.columns)}")
    for g in g0.index:
        mon.check("regional-table", bool((out.loc[g] == g0.loc[g]).all()), f"row {g} changed")
    for a in aer:
        for k, r in mapping.items():
            row = out.loc[f"{a}_{k}"]
            mon.close("regional-table", float(row["ALPHA"]), reg.at[r, a] * conv, 1e-10, 0, f"{a}_{k} efficiency")
            mon.check("regional-table", bool((row.drop("ALPHA") == g0.loc[a].drop("ALPHA")).all()), f"{a}_{k} other entries")
    mon.sig("regions", len(aer), len(mapping), bool(kw))


def regrun(case, mon, rng):
    """Gas table made by the tool gives regional forcing proportional to regional emissions."""
    from ciceroscm import pub_utils as P

    s = D.rand_setup(rng, "emis", regional=False, perturb=False, thermal="twolayer", pams=False)
    regs = ["EAS", "SAM", "NAF", "NAM", "RBU"]
    reg = pd.DataFrame(rng.normal(size=(5, 3)) * 1e-11, index=regs, columns=["BC", "OC", "SO2"])
    s.gas = P.make_regional_aerosol_gaspamdata(s.gas, reg)
    for g in s.gas.index:
        if g not in s.emis.columns and g.split("_")[0] in ("BC", "OC", "SO2"):
            s.emis[g] = D.base_emis(True)[g].to_numpy() * rng.uniform(0.5, 1.5, len(s.emis))
    s.deliver = {}
    _, res = D.run(s)
    got = D.forc_table(res)
    yr = s.years
    ref = M.ref_forc(s, D.conc_table(res))
    for c in got:
        mon.close("regional-run", got[c], ref[c], 1e-8, 1e-11, f"{s.describe()} {c}")
    maps = {"ASIA": "EAS", "LAM": "SAM", "MAF": "NAF", "OECD": "NAM", "REF": "RBU"}
    for a in ("BC", "OC", "SO2"):
        for k, r in maps.items():
            e = s.emis.loc[yr, f"{a}_{k}"].to_numpy()
            want = reg.at[r, a] * 1e9 * (e - e[0]) * s.gas.at[a, "SARF_TO_ERF"]
            ratio = got[f"{a}_{k}"][1:] / np.where(want[1:] == 0, np.nan, want[1:])
            ratio = ratio[np.isfinite(ratio)]
            mon.close("regional-run", ratio, np.full(len(ratio), np.mean(ratio)), 1e-6, 1e-9, f"{a}_{k} proportional to emissions")
    mon.sig("regrun", s.carbon, case["k"])

"""C16: parallel runs return every configuration and scenario exactly once."""
import concurrent.futures as cf
import copy
import json
import os
import time

import numpy as np

from .. import data as D
from .. import mons as M

RULE = (
    "Ensemble cases run random lists of scenarios (emission, concentration, both thermal and carbon models, several of them) over random "
    "lists of configurations (with missing groups, decay functions, component selection) with random worker numbers, "
    "through the function, the wrapper or the distribution run, and compare the returned table row by row with fresh single runs: "
    "exactly one row per scenario, configuration and available variable, in order, same values. Process cases drive the "
    "task distributor with jobs of random duration in serial, threads and processes, logging every call, and inject job failures, "
    "dying workers and timeouts. Non-trivial: more than one member; distinct by batching, worker number, way and fault."
)
EXPECTED_MONITORS = ["rows-exactly-once", "row-order", "row-values", "row-unit", "unavailable-omitted", "failure-raised", "inputs-unchanged"]
WORKERS = 5
VARS = {
    "Surface Air Temperature Change": (lambda r: r["dT_glob_air"] if "dT_glob_air" in r else None, "K"),
    "Surface Air Ocean Blended Temperature Change": (lambda r: r["dT_glob"], "K"),
    "Heat Content|Ocean": (lambda r: r["OHCTOT"] * 10.0, "ZJ"),
    "Heat Content|Ocean|0-700m": (lambda r: r["OHC700"] * 10.0, "ZJ"),
    "Effective Radiative Forcing|Anthropogenic": (lambda r: r["forcing"]["Total_forcing"], "W/m^2"),
    "Effective Radiative Forcing|Anthropogenic|CO2": (lambda r: r["forcing"]["CO2"], "W/m^2"),
    "Atmospheric Concentrations|CO2": (lambda r: r["concentrations"]["CO2"], "ppm"),
    "Atmospheric Concentrations|CH4": (lambda r: r["concentrations"]["CH4"], "ppb"),
    "Emissions|CH4": (lambda r: r["emissions"]["CH4"], None),
    "Carbon Flux|Ocean": (lambda r: r["carbon cycle"]["Ocean carbon flux"], "Pg C / yr"),
}
NOT_THERE = ["Invalid Variable", "Atmospheric Concentrations|Nothing", "Effective Radiative Forcing|Nothing", "Emissions|Nothing"]


FAILS = ["decay coefficients", "no such model", "missing file", "carbon lengths"]


def cases(rng, tier):
    mult = 2 if tier == "quick" else 8
    out = []
    for k in range(22 * mult):
        out.append({"kind": "ensemble", "ns": [1, 2, 1, 3, 4, 2][k % 6], "nc": [5, 3, 1, 2, 1, 6, 7][k % 7], "workers": [2, 4, 3, 1, 5][k % 5],
                    "way": ["function", "function", "distribution", "json", "wrapper"][(k + k // 5) % 5], "seed": int(rng.integers(1 << 31)), "cost": 9})
    for k in range(12 * mult):
        out.append({"kind": "failing", "fails": FAILS[k % len(FAILS)], "ns": [2, 1, 3, 2][k % 4], "nc": [3, 4, 2, 5, 3][k % 5], "workers": [2, 1, 4, 3, 2, 1, 5][k % 7],
                    "seed": int(rng.integers(1 << 31)), "cost": 7})
    for k in range(30 * mult):
        out.append({"kind": "process", "pool": ["none", "thread", "process"][k % 3], "seed": int(rng.integers(1 << 31)), "cost": 2})
    for k in range(9 * mult):
        out.append({"kind": "fault", "fault": ["job", "death", "timeout"][k % 3], "pool": ["thread", "process", "none"][(k // 3) % 3],
                    "seed": int(rng.integers(1 << 31)), "cost": 4})
    return out


def run(case, mon):
    if case["kind"] in ("process", "fault"):
        try:
            from ciceroscm.parallel._parallel_process import _parallel_process  # noqa: F401 pylint: disable=unused-import
        except ImportError:  # internal helper; ensembles still judge the whole
            mon.note = {"skipped": "no task distributor of that name"}
            return
    rng = np.random.default_rng(case["seed"])
    {"ensemble": ensemble, "failing": failing, "process": process, "fault": fault}[case["kind"]](case, mon, rng)


# -- ensembles ---------------------------------------------------------------
def scenarios(rng, n):
    out = []
    for i in range(n):
        mode = str(rng.choice(["emis", "emis", "conc"]))
        s = D.rand_setup(rng, mode)
        s.nystart, s.nyend = int(rng.integers(1990, 1999)), int(rng.integers(2010, 2020))
        s.emstart = int(rng.choice([s.nystart, 1995, 2005, 2030]))
        for p in ("pert_em", "pert_forc"):
            setattr(s, p, None)
        if rng.random() < 0.4:
            s.pert_em, s.pert_forc = D.rand_perturbations(rng, s)
        folder = f"scen{i}"
        os.makedirs(folder)
        c = s.cfg(folder)
        c["scenname"] = f"scen-{i}" if rng.random() < 0.8 else "same"
        out.append((s, c))
    return out


def configs(rng, n, scens):
    refs = [y for y in range(1998, 2011) if all(y in D.ok_refs(s, range(1998, 2011)) for s in scens)] or [2010]
    out = []
    for i in range(n):
        c = {"Index": f"m{i}" if rng.random() < 0.8 else str(100 - i)}
        if rng.random() < 0.85:
            p = D.rand_udm(rng)
            c["pamset_udm"] = {k: v for k, v in p.items() if rng.random() < 0.7 and k not in ("lm", "ldtime")}
            if rng.random() < 0.3:
                c["pamset_udm"]["delta_lambda_aero"] = float(rng.uniform(-0.2, 1.0))
        if rng.random() < 0.85:
            p = D.rand_emi(rng, refs)
            c["pamset_emiconc"] = {k: v for k, v in p.items() if rng.random() < 0.7}
            if rng.random() < 0.3:
                c["pamset_emiconc"]["just_one"] = str(rng.choice(["CO2", "CH4", "SO2"]))
            if rng.random() < 0.4:
                c["pamset_emiconc"]["lifetime_mode"] = str(rng.choice(["TAR", "CONSTANT_12", "WIGLEY"]))
        if rng.random() < 0.7:
            p = D.rand_carb(rng)
            c["pamset_carbon"] = {k: v for k, v in p.items() if rng.random() < 0.6 and k in ("beta_f", "mixed_carbon", "solubility_sens", "ml_t_half", "t_half")}
            if rng.random() < 0.3:
                c["pamset_carbon"]["rb_function"] = D.rand_rb(rng)
            if rng.random() < 0.3:
                c["pamset_carbon"]["rs_function"] = D.rand_rs(rng)
        out.append(c)
    if n > 1 and rng.random() < 0.3:  # ids are labels, not keys
        a, b = rng.choice(n, 2, replace=False)
        out[int(a)]["Index"] = out[int(b)]["Index"]
    return out


def single(scen, cfg, outs=True):
    """A run of its own."""
    from ciceroscm import CICEROSCM

    c = copy.deepcopy(scen)
    c.pop("scenname")
    cscm = CICEROSCM(c)
    cscm._run({"results_as_dict": True, "carbon_cycle_outputs": outs}, pamset_udm=copy.deepcopy(cfg.get("pamset_udm")),
              pamset_emiconc=copy.deepcopy(cfg.get("pamset_emiconc")), pamset_carbon=copy.deepcopy(cfg.get("pamset_carbon")))
    return cscm.results


def ensemble(case, mon, rng):
    from ciceroscm.parallel.cscmparwrapper import CSCMParWrapper, run_ciceroscm_parallel
    from ciceroscm.parallel.distributionrun import DistributionRun

    pairs = scenarios(rng, case["ns"])
    cfgs = configs(rng, case["nc"], [s for s, _ in pairs])
    keys = [v for v in VARS if rng.random() < 0.5] or ["Heat Content|Ocean"]
    if any(s.thermal == "twolayer" for s, _ in pairs):
        keys = [k for k in keys if k != "Surface Air Temperature Change"] or ["Heat Content|Ocean"]
    want = list(keys)
    for v in NOT_THERE:
        if rng.random() < 0.3:
            want.insert(int(rng.integers(len(want) + 1)), v)
    outs = not (case["way"] == "wrapper" and rng.random() < 0.5)
    expected = []
    for s, c in pairs:
        for cfg in cfgs:
            res = single(c, cfg, outs)
            for v in want:
                if v in keys and (outs or not v.startswith("Carbon")):
                    expected.append((c["scenname"], cfg["Index"], v, np.array(VARS[v][0](res), float), VARS[v][1], s.years))
    scen, conf = [copy.deepcopy(c) for _, c in pairs], copy.deepcopy(cfgs)
    snap = M.snapshot([scen, conf])
    way, workers = case["way"], case["workers"]
    if way == "function":
        df = run_ciceroscm_parallel(scen, conf, list(want), max_workers=workers)
    elif way == "wrapper":
        import pandas as pd

        df = pd.concat([CSCMParWrapper(c).run_over_cfgs(conf, list(want), carbon_cycle_outputs=outs) for c in scen])
    else:
        if way == "json":
            meta = {"a": 1} if rng.random() < 0.5 else None
            with open("conf.json", "w", encoding="utf-8") as fw:
                json.dump({"meta_info": meta, "configurations": conf} if meta else conf, fw)
            dist = DistributionRun(None, json_file_name="conf.json")
        else:
            dist = DistributionRun(Fixed(conf), numvalues=len(conf))
        arg = scen[0] if len(scen) == 1 and rng.random() < 0.5 else scen
        df = dist.run_over_distribution(arg, list(want), max_workers=workers)
    ctx = f"{way} {case['ns']} scenarios {case['nc']} configurations {workers} workers"
    mon.check("inputs-unchanged", M.unchanged(snap, M.snapshot([scen, conf])), f"{ctx} scenarios or configurations changed")
    rows = list(zip(df["scenario"], df["run_id"], df["variable"]))
    exp = [e[:3] for e in expected]
    mon.check("rows-exactly-once", sorted(rows) == sorted(exp),
              lambda: f"{ctx} {len(rows)} rows for {len(exp)}; missing {[e for e in exp if e not in rows][:4]} extra {[r for r in rows if r not in exp][:4]}")
    mon.check("unavailable-omitted", not set(df["variable"]) & set(NOT_THERE), f"{ctx} rows for unavailable variables")
    mon.check("row-order", rows == exp, lambda: f"{ctx} order {rows[:12]} expected {exp[:12]}")
    if rows == exp:
        for (_, row), e in zip(df.iterrows(), expected):
            label = f"{ctx} {e[0]} {e[1]} {e[2]}"
            mon.close("row-values", [row[y] for y in e[5]], e[3], 1e-9, 1e-11, label)
            years = [c for c in df.columns if isinstance(c, (int, np.integer)) and c not in e[5]]
            mon.check("row-values", all(row[y] != row[y] for y in years), f"{label} values outside the years of the scenario")
            if e[4] is not None:
                mon.check("row-unit", row["unit"] == e[4], f"{label} unit {row['unit']}")
            mon.check("row-unit", row["region"] == "World" and row["climate_model"] == "CICERO-SCM-PY", f"{label} labels")
    for s, _ in pairs:
        mon.sig("ensemble", way, case["ns"], case["nc"], workers, s.mode, s.thermal, s.carbon)
    mon.note = {"rows": len(rows), "way": way, "workers": workers}


class Fixed:
    """Distribution with given members."""

    def __init__(self, members):
        self.members = members

    def make_config_lists(self, numvalues, **_):
        return self.members[:numvalues]


def failing(case, mon, rng):
    """One member that cannot run."""
    from ciceroscm.parallel.cscmparwrapper import run_ciceroscm_parallel

    pairs = scenarios(rng, case["ns"])
    cfgs = configs(rng, case["nc"], [s for s, _ in pairs])
    scen = [c for _, c in pairs]
    kind = case["fails"]
    if kind in ("decay coefficients", "carbon lengths"):
        for s, c in pairs:
            c["carbon_cycle_model"] = "default"
        # the first, the last or any member, so that it shares its batch with others or not
        bad = cfgs[int(rng.choice([0, len(cfgs) - 1, int(rng.integers(len(cfgs)))]))]
        if kind == "decay coefficients":
            bad["pamset_carbon"] = {"rs_function": {"coeffs": [0.5, 0.5], "timescales": [1.0, 2.0, 3.0]}}
        else:
            bad["pamset_carbon"] = {"rb_function": {"coeffs": [0.5, 0.25, 0.25], "timescales": [1.0, 2.0]}}
    elif kind == "no such model":
        scen[int(rng.integers(len(scen)))]["thermal_model"] = "no such model"
    else:
        c = scen[int(rng.integers(len(scen)))]
        c.pop("emissions_data", None)
        c["emissions_file"] = os.path.abspath("not_there.txt")
    mon.raises("failure-raised", Exception, lambda: run_ciceroscm_parallel(scen, cfgs, ["Heat Content|Ocean"], max_workers=case["workers"]),
               f"bad {kind} among {case['ns']}x{case['nc']} with {case['workers']} workers")
    mon.sig("failing", kind, case["ns"], case["nc"], case["workers"])


# -- task distributor --------------------------------------------------------
def job(spec):
    """Log the call, wait, and return or fail."""
    fd = os.open(spec["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, f"{spec['i']}\n".encode())
    os.close(fd)
    time.sleep(spec["wait"])
    if spec.get("fault") == "job":
        raise KeyError(f"job {spec['i']}")
    if spec.get("fault") == "death":
        if os.getpid() == spec["parent"]:
            raise KeyError("run in the calling process")
        os._exit(3)
    return ("done", spec["i"])


def job_kw(i, wait, log, fault=None, parent=None):
    return job({"i": i, "wait": wait, "log": log, "fault": fault, "parent": parent})


def start(pool, specs, kw, fs, fp, workers, timeout=None):
    from ciceroscm.parallel._parallel_process import _parallel_process

    args = {"func": job_kw if kw else job, "configuration": specs, "config_are_kwargs": kw, "front_serial": fs, "front_parallel": fp}
    if timeout is not None:
        args["timeout"] = timeout
    if pool == "none":
        return _parallel_process(**args)
    cls = cf.ThreadPoolExecutor if pool == "thread" else cf.ProcessPoolExecutor
    with cls(workers) as ex:
        return _parallel_process(pool=ex, **args)


def process(case, mon, rng):
    n = int(rng.integers(0, 14))
    fs, fp = int(rng.choice([0, 1, 3, 20])), int(rng.choice([0, 1, 2, 20]))
    if n <= 1 and rng.random() < 0.7:
        n = 9
    log = os.path.abspath("calls.log")
    wait = rng.exponential(0.02, n)
    if n:
        wait[0] = 0.15  # first one ends last
    specs = [{"i": i, "wait": float(wait[i]), "log": log} for i in range(n)]
    kw, workers = bool(rng.random() < 0.5), int(rng.integers(1, 6))
    res = start(case["pool"], specs, kw, fs, fp, workers)
    ctx = f"{case['pool']} {n} jobs front {fs}/{fp} kwargs={kw} {workers} workers"
    called = [int(x) for x in open(log, encoding="utf8").read().split()] if os.path.exists(log) else []
    mon.check("calls-exactly-once", sorted(called) == list(range(n)), f"{ctx} called {called}")
    mon.check("result-order", list(res) == [("done", i) for i in range(n)], f"{ctx} results {res}")
    mon.sig("process", case["pool"], n > fs, n > fs + fp, fs, fp, kw)
    mon.note = {"jobs": n, "completed_in_call_order": called == sorted(called)}


def fault(case, mon, rng):
    n, log = int(rng.integers(3, 8)), os.path.abspath("calls.log")
    specs = [{"i": i, "wait": 0.01, "log": log, "parent": os.getpid()} for i in range(n)]
    bad = int(rng.integers(n))
    kind, pool = case["fault"], case["pool"]
    fs, fp = int(rng.choice([0, 0, 2])), int(rng.choice([0, 2]))
    if kind == "death":
        fs, pool = 0, "process"  # not in this process
    if kind == "timeout":
        fs, pool = 0, "thread" if pool == "none" else pool
        specs[bad]["wait"] = 1.5
    else:
        specs[bad]["fault"] = kind
    name = {"job": "job-failure-raised", "death": "worker-death-raised", "timeout": "timeout-raised"}[kind]
    exc = {"job": KeyError, "death": Exception, "timeout": (TimeoutError, cf.TimeoutError)}[kind]
    mon.raises(name, exc, lambda: start(pool, specs, bool(rng.random() < 0.5), fs, fp, 2, 0.3 if kind == "timeout" else None),
               f"{kind} in job {bad} of {n} pool {pool} front {fs}/{fp}")
    mon.sig("fault", kind, pool, fs, fp)

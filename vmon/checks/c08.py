"""C08: concentrations prescribed before emissions start, emission-driven after."""
import numpy as np

from .. import data as D
from .. import mons as M
from .. import ref as R

RULE = (
    "A case is a run with a random gas table, emission and concentration tables, natural emissions, methane lifetime mode and "
    "order of run start, run end and emission start; the reported concentration of every gas and year is compared with the "
    "prescribed value or with an independent one-box step from the previous year. Non-trivial: at least one emission-driven and "
    "changing gas, or a prescribed run; distinct by mode, lifetime mode, position of the emission start and input form."
)
EXPECTED_MONITORS = ["gas", "methane", "nitrous-oxide", "prescribed-co2", "prescribed", "columns", "rerun-lifetime"]
ORDERS = ["before", "start", "start+1", "start+2", "start+3", "middle", "end-1", "end", "end+1", "after"]


def cases(rng, tier):
    mult = 3 if tier == "quick" else 10
    out = []
    for k in range(60 * mult):
        out.append({"kind": "run", "mode": "emis", "order": ORDERS[k % len(ORDERS)], "life": ["TAR", "CONSTANT_12", "WIGLEY", "unset"][k % 4],
                    "long": k % 30 == 5, "seed": int(rng.integers(1 << 31)), "cost": 10 if k % 30 == 5 else 2})
    for k in range(16 * mult):
        out.append({"kind": "run", "mode": "conc", "order": ORDERS[k % len(ORDERS)], "life": "unset", "long": k % 16 == 5,
                    "seed": int(rng.integers(1 << 31)), "cost": 2})
    for k in range(8 * mult):
        out.append({"kind": "run", "mode": "emis", "order": ORDERS[k % 6], "life": ["TAR", "unset", "WIGLEY", "TAR"][k % 4], "long": False,
                    "oh": True, "seed": int(rng.integers(1 << 31)), "cost": 2})
    for k in range(10 * mult):
        out.append({"kind": "run", "mode": ["emis", "emis", "conc"][k % 3], "order": ORDERS[k % 7], "life": ["TAR", "CONSTANT_12", "WIGLEY", "unset"][k % 4],
                    "long": False, "wild": True, "seed": int(rng.integers(1 << 31)), "cost": 2})
    for k in range(6 * mult):
        out.append({"kind": "rerun", "seed": int(rng.integers(1 << 31)), "cost": 4})
    return out


def place(order, a, b, rng):
    return {"before": a - int(rng.integers(1, 60)), "start": a, "start+1": a + 1, "start+2": a + 2, "start+3": a + 3,
            "middle": (a + b) // 2, "end-1": b - 1, "end": b, "end+1": b + 1, "after": b + int(rng.integers(2, 60))}[order]


def judge(mon, s, res, ctx):
    ref = M.ref_conc(s)
    tab = D.conc_table(res)
    mon.check("columns", set(ref) | {"CO2"} <= set(tab), f"{ctx} missing {sorted((set(ref) | {'CO2'}) - set(tab))[:5]}")
    mon.check("columns", list(res["concentrations"]["Year"]) == s.years, f"{ctx} years {list(res['concentrations']['Year'])[:4]}")
    drv = [i for i, y in enumerate(s.years) if y >= s.emstart] if s.mode == "emis" else []
    pre = [i for i in range(len(s.years)) if i not in set(drv)]
    for g, exp in ref.items():
        if g not in tab:
            continue
        name = {"CH4": "methane", "N2O": "nitrous-oxide"}.get(g, "gas")
        got = tab[g]
        if len(got) != len(exp):
            mon.fail("columns", f"{ctx} {g} has {len(got)} values")
            continue
        if pre:
            mon.close("prescribed", got[pre], s.conc.loc[[s.years[i] for i in pre], g], 1e-12, 0, f"{ctx} {g}")
        mon.close(name, got, exp, 1e-9, 1e-12, f"{ctx} {g}")
    if s.mode == "conc":
        mon.close("prescribed-co2", tab["CO2"], s.conc.loc[s.years, "CO2"], 1e-12, 0, ctx)
    return drv


def setup(case, rng):
    life = None if case["life"] == "unset" else case["life"]
    s = D.rand_setup(rng, case["mode"], long=case["long"], lifetime=life or "TAR", perturb=bool(rng.random() < 0.2))
    if life is None:
        s.emi.pop("lifetime_mode", None)
    s.emstart = place(case["order"], s.nystart, s.nyend, rng)
    if case.get("oh"):
        stress_oh(s, rng)
    if case.get("wild"):
        D.wild(rng, s)
    return s


def stress_oh(s, rng):
    """Precursor and methane emissions that take the methane sink from nearly nothing to several times its size."""
    em = s.emis
    for col in ("NOx", "CO", "NMVOC", "CH4"):
        em[col] = em[col].astype(float)
    for y in em.index:
        em.loc[y, "CH4"] *= float(np.exp(rng.uniform(-2.0, 1.4)))
        if y == 2000:
            continue
        d = float(rng.uniform(-0.95, 1.0))
        if d > 0:
            em.loc[y, "NOx"] = em.at[2000, "NOx"] + d / 0.0042
        else:
            share = float(rng.random())
            em.loc[y, "CO"] = em.at[2000, "CO"] - share * d / 0.000105
            em.loc[y, "NMVOC"] = em.at[2000, "NMVOC"] - (1 - share) * d / 0.000315


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "rerun":
        return rerun(case, mon, rng)
    s = setup(case, rng)
    _, res = D.run(s)
    ctx = f"{s.describe()} {case['order']} {case['life']} deliver={s.how('emissions')},{s.how('concentrations')},{s.how('gaspam')} nat={sorted(s.nat)}"
    drv = judge(mon, s, res, ctx)
    mon.sig(case["mode"], case["order"], case["life"], bool(s.nat), s.how("emissions"), len(drv) > 0, bool(case.get("oh")), bool(case.get("wild")))
    mon.note = {"run": s.describe(), "driven_years": len(drv), "gases": len(s.gas)}


def rerun(case, mon, rng):
    """Lifetime mode and natural emissions of one run of an instance do not affect the next."""
    case = dict(case, mode="emis", order=str(rng.choice(ORDERS[:7])), life="TAR", long=False)
    s = setup(case, rng)
    cscm = D.make(s)
    modes = [str(m) for m in rng.choice(["TAR", "CONSTANT_12", "WIGLEY", "unset"], 4)]
    for m in modes:
        s.emi.pop("lifetime_mode", None)
        if m != "unset":
            s.emi["lifetime_mode"] = m
        _, res = D.run(s, cscm)
        exp = M.ref_conc(s)
        tab = D.conc_table(res)
        for g in ("CH4", "N2O", "CFC-11", "HFC134a"):
            mon.close("rerun-lifetime", tab[g], exp[g], 1e-9, 1e-12, f"{s.describe()} modes {modes} now {m} {g}")
    mon.sig("rerun", *modes)

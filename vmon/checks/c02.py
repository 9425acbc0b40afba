"""C02: thermal diagnostics are consistent with the state they describe."""
import numpy as np

from .. import data as D
from .. import hist as H
from .. import mons as M
from .. import ref as R
from .c01 import COLS, partial_params, regime

RULE = (
    "A case drives the real default thermal model with a forcing history and judges every yearly output: mean/blend "
    "identities, radiative imbalance against forcing, feedback and the recorded layer temperatures, heat contents "
    "against recorded layer temperatures, and pairs or triples of histories for zero, linearity and hemispheric exchange. "
    "Non-trivial: non-zero response; distinct by monitor family, history shape and parameter regime."
)
EXPECTED_MONITORS = ["means", "blend", "imbalance", "heat-content", "zero", "linear", "mirror", "run-identities"]
RHO_C = 1030.0 * 3997.0


def cases(rng, tier):
    mult = 6 if tier == "quick" else 12
    out = []
    for k in range(54 * mult):
        out.append({"kind": "identities", "seed": int(rng.integers(1 << 31)), "hist": H.KINDS[k % len(H.KINDS)]})
    for k in range(12 * mult):
        out.append({"kind": "zero", "seed": int(rng.integers(1 << 31))})
    for k in range(24 * mult):
        out.append({"kind": "linear", "seed": int(rng.integers(1 << 31))})
    for k in range(20 * mult):
        out.append({"kind": "mirror", "seed": int(rng.integers(1 << 31))})
    for k in range(12 * mult):
        out.append({"kind": "run", "seed": int(rng.integers(1 << 31)), "mode": ["emis", "conc", "forc"][k % 3], "cost": 3})
    return out


def params(rng):
    p = partial_params(rng)
    if rng.random() < 0.35:
        p["mixed"] = float(rng.choice([60.0, 99.9, 100.0, 130.0, 199.0, 200.0, 210.0, 350.0, 500.0]))
    return p


def full(p):
    q = dict(R.UDM_DEFAULT)
    q.update(p)
    return q


def layers(model):
    """Layer temperatures of the model, if it shows them."""
    tn, ts = getattr(model, "tn", None), getattr(model, "ts", None)
    if tn is None or ts is None:
        return None
    return np.array([np.asarray(tn, float).copy(), np.asarray(ts, float).copy()])


def heat(T, p):
    dz = np.full(T.shape[1], 100.0)
    dz[0] = p["mixed"]
    fo = np.array([p["foan"], p["foas"]])[:, None]
    h = 1030.0 * 3.997e-19 * 2.55e14 * dz * (fo * T).sum(axis=0)
    top, depth = 0.0, 0.0
    for i, d in enumerate(dz):
        top += h[i] * min(max((700.0 - depth) / d, 0.0), 1.0)
        depth += d
    return h.sum(), top


def identities(mon, p, v, fn, fs, vn, vs, before, after, ctx, name=("means", "blend", "imbalance", "heat-content")):
    q = full(p)
    for kind in ("", "_air", "_sea"):
        mon.close(name[0], v[f"dtemp{kind}"], 0.5 * (v[f"dtempnh{kind}"] + v[f"dtempsh{kind}"]), 1e-10, 1e-13, f"{ctx} dtemp{kind}")
    mon.close(name[0], v["RIB"], 0.5 * (v["RIBN"] + v["RIBS"]), 1e-10, 1e-13, f"{ctx} RIB")
    for h, fo in (("nh", q["foan"]), ("sh", q["foas"])):
        mon.close(name[1], v[f"dtemp{h}"], fo * v[f"dtemp{h}_sea"] + (1 - fo) * v[f"dtemp{h}_air"], 1e-9, 1e-13, f"{ctx} blend {h}")
    if q["ocean_efficacy"] == 1:
        anom = 0.0
    elif before is None:
        anom = None
    else:
        d = after - before
        dz = np.full(d.shape[1], 100.0)
        fo = np.array([q["foan"], q["foas"]])[:, None]
        anom = (q["ocean_efficacy"] - 1) * 4184.0 * 1000.0 * (dz * (fo * d).sum(axis=0))[1:].sum() / R.SEC_YEAR
    fb = 1.0 / q["lambda"]
    if anom is not None:
        mon.close(name[2], v["RIBN"], fn + np.mean(vn) - fb * v["dtempnh"] - anom, 1e-8, 1e-11, f"{ctx} RIBN")
        mon.close(name[2], v["RIBS"], fs + np.mean(vs) - fb * v["dtempsh"] - anom, 1e-8, 1e-11, f"{ctx} RIBS")
    if after is not None and q["lm"] >= 8:
        tot, top = heat(after, q)
        mon.close(name[3], v["OHCTOT"], tot, 1e-8, 1e-12, f"{ctx} OHCTOT")
        mon.close(name[3], v["OHC700"], top, 1e-8, 1e-12, f"{ctx} OHC700")


def drive(p, fn, fs, vn, vs):
    from ciceroscm.thermal_model.upwelling_diffusion_model import UpwellingDiffusionModel as UDM

    model = UDM(dict(p))
    out = []
    for i in range(len(fn)):
        v = model.energy_budget(fn[i], fs[i], vn[i], vs[i])
        out.append({k: float(v[k]) for k in KEYS})
    return out


KEYS = ["dtemp", "dtempnh", "dtempsh", "dtemp_air", "dtempnh_air", "dtempsh_air", "dtemp_sea", "dtempnh_sea",
        "dtempsh_sea", "RIB", "RIBN", "RIBS", "OHC700", "OHCTOT"]


def run(case, mon):
    from ciceroscm.thermal_model.upwelling_diffusion_model import UpwellingDiffusionModel as UDM

    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "identities":
        n = int(rng.integers(200, 400)) if rng.random() < 0.05 else int(rng.integers(6, 60))
        p = params(rng)
        fn, fs = H.history(rng, case["hist"], n)
        vn, vs = H.volcanoes(rng, n, int(rng.choice(COLS)), int(rng.choice(COLS)), rng.random() < 0.6)
        n = R.calm_years(p, fn, fs, vn, vs)
        if n == 0:
            return
        model = UDM(dict(p))
        ref = None
        if layers(model) is None:
            ref = R.RefUDM(p)
        for i in range(n):
            before = layers(model) if ref is None else ref.T.copy()
            v = model.energy_budget(fn[i], fs[i], vn[i], vs[i])
            if ref is not None:
                ref.year(fn[i], fs[i], vn[i], vs[i])
            after = layers(model) if ref is None else ref.T.copy()
            identities(mon, p, v, fn[i], fs[i], vn[i], vs[i], before, after, f"{case['hist']} year {i} {p}")
        mon.note = {"params": p, "last": {k: float(v[k]) for k in ("dtemp", "RIB", "OHCTOT")}}
        if v["dtemp"] != 0:
            mon.sig("identities", case["hist"], int(full(p)["mixed"] // 100), *regime(p))
    elif case["kind"] == "zero":
        p = params(rng)
        z = np.zeros(15)
        cols = int(rng.choice(COLS))
        out = drive(p, z, z, np.zeros((15, cols)), np.zeros((15, cols)))
        for i, v in enumerate(out):
            for k in KEYS:
                mon.check("zero", v[k] == 0.0, f"year {i} {k}={v[k]!r} without any forcing {p}")
        mon.sig("zero", *regime(p))
    elif case["kind"] == "linear":
        p = params(rng)
        p["threstemp"] = 0.0
        n = int(rng.integers(8, 40))
        cols = int(rng.choice(COLS))
        kinds = rng.choice([k for k in H.KINDS if k not in ("zero", "tiny")], 2)
        h = [H.history(rng, str(k), n) for k in kinds]
        v = [H.volcanoes(rng, n, cols, cols) for _ in range(2)]
        a, b = rng.uniform(-3, 3, 2)
        r1 = drive(p, *h[0], *v[0])
        r2 = drive(p, *h[1], *v[1])
        mix = drive(p, a * h[0][0] + b * h[1][0], a * h[0][1] + b * h[1][1],
                    a * v[0][0] + b * v[1][0], a * v[0][1] + b * v[1][1])
        for k in KEYS:
            exp = np.array([a * x[k] + b * y[k] for x, y in zip(r1, r2)])
            mon.close("linear", [x[k] for x in mix], exp, 1e-7, 1e-9 * (1 + np.abs(exp).max()), f"{k} {p}")
        mon.sig("linear", *kinds, *regime(p))
    elif case["kind"] == "mirror":
        p = params(rng)
        p["foan"] = p["foas"] = float(rng.uniform(0.4, 0.95))
        n = int(rng.integers(8, 40))
        cols = [int(rng.choice(COLS)) for _ in range(2)]
        kind = str(rng.choice(H.LIVE))
        fn, fs = H.history(rng, kind, n)
        vn, vs = H.volcanoes(rng, n, *cols)
        if R.calm_years(p, fn, fs, vn, vs) < n:
            p["threstemp"] = 7.0
        r1, r2 = drive(p, fn, fs, vn, vs), drive(p, fs, fn, vs, vn)
        for k in KEYS:
            kk = k.replace("nh", "@").replace("sh", "nh").replace("@", "sh") if "dtemp" in k else {"RIBN": "RIBS", "RIBS": "RIBN"}.get(k, k)
            exp = np.array([x[kk] for x in r2])
            mon.close("mirror", [x[k] for x in r1], exp, 1e-8, 1e-10 * (1 + np.abs(exp).max()), f"{k} {p}")
        mon.sig("mirror", kind, *regime(p))
    else:
        whole_run(case, mon, rng)


def whole_run(case, mon, rng):
    """The series of a run are those of the model fed with the recorded forcing."""
    if case["mode"] == "forc":
        from ciceroscm import CICEROSCM

        n, y0 = int(rng.integers(10, 60)), int(rng.integers(1750, 2000))
        fn, _ = H.history(rng, str(rng.choice(H.LIVE)), n)
        p = params(rng)
        if R.calm_years(p, fn, fn, np.zeros((n, 1)), np.zeros((n, 1)), 40.0) < n:
            p["threstemp"] = 7.0
        cscm = CICEROSCM({"nystart": y0, "nyend": y0 + n - 1, "forc_data": fn, "sunvolc": int(rng.random() < 0.5)})
        with M.record_thermal() as calls:
            cscm._run({"results_as_dict": True}, pamset_udm=dict(p))
        res, desc = cscm.results, f"forc {y0}+{n} {p}"
    else:
        s = D.rand_setup(rng, case["mode"], thermal="default")
        with M.record_thermal() as calls:
            _, res = D.run(s)
        p, desc = s.udm, s.describe()
    q = full(p)
    inv = R.RefUDM.OUT
    n = len(res["dT_glob"])
    for i in range(n):
        v = {inv[k]: float(res[k][i]) for k in inv}
        for kind in ("", "_air", "_sea"):
            mon.close("run-identities", v[f"dtemp{kind}"], 0.5 * (v[f"dtempnh{kind}"] + v[f"dtempsh{kind}"]), 1e-10, 1e-13, f"{desc} dtemp{kind}")
        mon.close("run-identities", v["RIB"], 0.5 * (v["RIBN"] + v["RIBS"]), 1e-10, 1e-13, f"{desc} RIB")
        for h, fo in (("nh", q["foan"]), ("sh", q["foas"])):
            mon.close("run-identities", v[f"dtemp{h}"], fo * v[f"dtemp{h}_sea"] + (1 - fo) * v[f"dtemp{h}_air"], 1e-9, 1e-13, f"{desc} blend {h}")
    if len(calls.fn) == n:
        again = drive(p, calls.fn, calls.fs, calls.vn, calls.vs)
        for k, kk in inv.items():
            mon.close("run-identities", res[k], [v[kk] for v in again], 1e-10, 1e-12, f"{desc} series {k}")
        for i in range(n):
            for h, f, vol in (("N", calls.fn, calls.vn), ("S", calls.fs, calls.vs)):
                if q["ocean_efficacy"] == 1:
                    mon.close("run-identities", res[f"RIB_{h}"][i],
                              f[i] + np.mean(vol[i]) - res[f"dT_{h}H"][i] / q["lambda"], 1e-8, 1e-10, f"{desc} RIB_{h}")
    mon.sig("run", case["mode"], *regime(p))

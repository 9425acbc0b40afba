"""
Reference models (the oracles).

Written from the documented physics of CICERO-SCM (description paper, README,
docstrings), not importing anything from ciceroscm.  Plain and slow on
purpose: dense matrices, explicit sums.
"""
import numpy as np

SEC_YEAR = 365.0 * 86400

# ---------------------------------------------------------------------------
# thermal models
# ---------------------------------------------------------------------------
UDM_DEFAULT = {
    "rlamdo": 15.0, "akapa": 0.66, "cpi": 0.21, "W": 2.2, "beto": 6.9,
    "threstemp": 7.0, "lambda": 0.61, "mixed": 107.0, "foan": 0.61,
    "foas": 0.81, "ebbeta": 0.0, "lm": 40, "ldtime": 12,
    "ocean_efficacy": 1.0, "delta_lambda_aero": 0.0,
}
TWO_DEFAULT = {
    "lambda": 3.74 / 3, "mixed": 50, "deep": 1200, "k": 0.5,
    "ocean_efficacy": 1, "foan": 0.61, "foas": 0.81, "delta_lambda_aero": 0.0,
}


class RefUDM:
    """Hemispheric upwelling-diffusion energy balance model."""

    OUT = {
        "RIB_glob": "RIB", "RIB_N": "RIBN", "RIB_S": "RIBS", "dT_glob": "dtemp",
        "dT_NH": "dtempnh", "dT_SH": "dtempsh", "dT_glob_air": "dtemp_air",
        "dT_NH_air": "dtempnh_air", "dT_SH_air": "dtempsh_air",
        "dT_glob_sea": "dtemp_sea", "dT_NH_sea": "dtempnh_sea",
        "dT_SHsea": "dtempsh_sea", "OHC700": "OHC700", "OHCTOT": "OHCTOT",
    }

    def __init__(self, pam=None):
        p = dict(UDM_DEFAULT)
        p.update({k: v for k, v in (pam or {}).items() if k in p})
        self.p = p
        n = int(p["lm"])
        self.n = n
        self.dz = np.full(n, 100.0)
        self.dz[0] = p["mixed"]
        self.dt = SEC_YEAR / p["ldtime"]
        # mixed layer heat capacity constant of the original scheme
        self.c1 = 1.03 * 0.955 * 0.485 * 100.0 * 86400
        self.kap = 1e-4 * p["akapa"]
        self.fb = 1.0 / p["lambda"]
        # index 0: north, 1: south
        self.T = np.zeros((2, n))
        self.fprev = np.zeros(2)
        self.cache = {}

    def set_w(self, w):
        if self.p["delta_lambda_aero"] != 0:
            self.fb = 1.0 / self.p["lambda"] + self.p["delta_lambda_aero"] * w
            self.cache = {}

    def _matrix(self, hemi, temp):
        """Implicit matrix and upwelling length for a hemisphere."""
        p, n, dz, dt = self.p, self.n, self.dz, self.dt
        up = p["W"] / SEC_YEAR * dt
        if p["threstemp"] != 0:
            up = up * (1 - 0.3 * temp / p["threstemp"])
        else:
            key = hemi
            if key in self.cache:
                return self.cache[key]
        fo = (p["foan"], p["foas"])
        x = p["ebbeta"] / p["rlamdo"]
        gam = [f + self.fb / p["rlamdo"] + x for f in fo]
        det = gam[0] * gam[1] - x * x
        g = p["rlamdo"] * (1 - fo[hemi] * gam[1 - hemi] / det) * dt / (self.c1 * dz[0])
        d = 2 * self.kap * dt
        A = np.eye(n)
        ex = d / (dz[0] * dz[1])  # mixed layer -> first layer exchange
        eff = p["ocean_efficacy"]
        A[0, 0] += ex * eff + g - up / dz[0]
        A[0, 1] = -ex * eff
        lower0 = -d / dz[1] ** 2 + up / dz[1]
        A[1, 0] = lower0
        A[1, 1] += -lower0
        for i in range(1, n - 1):
            h = dz[i] + dz[i + 1]
            upper = -d / (dz[i] * h) - up / dz[i]
            A[i, i + 1] = upper
            A[i, i] -= upper
            low = -d / (dz[i + 1] * h)
            A[i + 1, i] = low
            A[i + 1, i + 1] -= low
        A[n - 1, n - 1] += up / dz[n - 1]
        if p["threstemp"] == 0:
            self.cache[hemi] = (A, up)
        return A, up

    def year(self, fn, fs, vn, vs):
        p, n, dz, dt = self.p, self.n, self.dz, self.dt
        fo = np.array([p["foan"], p["foas"]])
        ratio = (1.0, p["foan"] / p["foas"])
        vol = (np.atleast_1d(np.asarray(vn, float)), np.atleast_1d(np.asarray(vs, float)))
        f = np.array([fn, fs], float)
        L = int(p["ldtime"])
        x = p["ebbeta"] / p["rlamdo"]
        gam = fo + self.fb / p["rlamdo"] + x
        det = gam[0] * gam[1] - x * x
        s0 = dt / (self.c1 * dz[0])
        start = self.T.copy()
        surf = np.zeros(2)
        sums = {k: np.zeros(2) for k in ("all", "air", "sea")}
        for im in range(L):
            wgt = (im + 1) / L
            q = np.array([
                wgt * f[h] + (1 - wgt) * self.fprev[h]
                + vol[h][im * len(vol[h]) // L]
                for h in (0, 1)
            ])
            new = np.zeros_like(self.T)
            for h in (0, 1):
                o = 1 - h
                A, up = self._matrix(h, surf[h])
                b = p["beto"] * ratio[h]
                T, To = self.T[h], self.T[o]
                rhs = T + b * dt / (self.c1 * dz) * (To - T)
                rhs[0] = (
                    T[0] * (1 - p["cpi"] * up / dz[0] - b * s0)
                    + To[0] * s0 * (b + fo[o] * p["ebbeta"] / det)
                    + s0 * (gam[o] * q[h] + x * q[o]) / det
                )
                rhs[n - 1] += up * p["cpi"] / dz[n - 1] * T[0]
                new[h] = np.linalg.solve(A, rhs)
            self.T = new
            surf = new[:, 0].copy()
            # air temperature: 2x2 balance of land/air of the hemispheres
            fx = self.fb + fo * p["rlamdo"] + p["ebbeta"]
            M = np.array([[fx[0], -p["ebbeta"]], [-p["ebbeta"], fx[1]]])
            air = np.linalg.solve(M, q + fo * p["rlamdo"] * surf)
            sums["air"] += air / L
            sums["sea"] += surf / L
            sums["all"] += (fo * surf + (1 - fo) * air) / L
        self.fprev = f
        dT = self.T - start
        uptake = 4184.0 * 1000.0 * sum(
            dz[i] * (fo[0] * dT[0, i] + fo[1] * dT[1, i]) for i in range(1, n)
        ) / SEC_YEAR
        anom = (p["ocean_efficacy"] - 1) * uptake
        rib = [
            f[h] + vol[h].mean() - self.fb * sums["all"][h] - anom for h in (0, 1)
        ]
        heat = 1030.0 * 3.997e-19 * 2.55e14 * dz * (fo[0] * self.T[0] + fo[1] * self.T[1])
        # heat above 700 m
        ohc700 = 0.0
        depth = 0.0
        for i in range(n):
            part = min(max((700.0 - depth) / dz[i], 0.0), 1.0)
            ohc700 += part * heat[i]
            depth += dz[i]
        return {
            "dtemp": sums["all"].mean(), "dtempnh": sums["all"][0], "dtempsh": sums["all"][1],
            "dtemp_air": sums["air"].mean(), "dtempnh_air": sums["air"][0], "dtempsh_air": sums["air"][1],
            "dtemp_sea": sums["sea"].mean(), "dtempnh_sea": sums["sea"][0], "dtempsh_sea": sums["sea"][1],
            "RIBN": rib[0], "RIBS": rib[1], "RIB": (rib[0] + rib[1]) / 2,
            "OHC700": ohc700, "OHCTOT": heat.sum(), "anomalous_radiation": anom,
        }


class RefTwoLayer:
    """Two layer energy balance model, one explicit step a year."""

    OUT = {
        "RIB_glob": "RIB", "dT_glob": "dtemp", "OHC_MIXED": "OHC_MIXED",
        "OHC_DEEP": "OHC_DEEP", "OHC700": "OHC700", "OHCTOT": "OHCTOT",
        "dT_fast": "dtemp_fast", "dT_slow": "dtemp_slow",
    }

    def __init__(self, pam=None):
        p = dict(TWO_DEFAULT)
        p.update({k: v for k, v in (pam or {}).items() if k in p})
        self.p = p
        self.tf = self.ts = 0.0
        self.fb = p["lambda"]

    def set_w(self, w):
        self.fb = self.p["lambda"] + self.p["delta_lambda_aero"] * w

    def year(self, fn, fs, vn, vs):
        p = self.p
        F = 0.5 * (fn + fs) + 0.5 * (np.mean(vn) + np.mean(vs))
        heat = lambda depth: depth * 1000.0 * 4184.0  # J/m2/K
        cf, cs = heat(p["mixed"]) / SEC_YEAR, heat(p["deep"]) / SEC_YEAR
        ex = p["k"] * (self.tf - self.ts)
        net_in = F - self.fb * self.tf - p["ocean_efficacy"] * ex
        self.tf, self.ts = self.tf + net_in / cf, self.ts + ex / cs
        ex2 = p["k"] * (self.tf - self.ts)
        area = 3.61e14
        om = self.tf * heat(p["mixed"]) * area / 1e22
        od = self.ts * heat(p["deep"]) * area / 1e22
        top = min(700.0 / p["mixed"], 1.0) * om
        top += min(max(700.0 - p["mixed"], 0.0) / p["deep"], 1.0) * od
        fo = 0.5 * (p["foan"] + p["foas"])
        return {
            "dtemp": fo * self.tf + (1 - fo) * F / self.fb,
            "dtemp_fast": self.tf, "dtemp_slow": self.ts,
            "RIB": F - self.fb * self.tf - (p["ocean_efficacy"] - 1) * ex2,
            "OHC_MIXED": om, "OHC_DEEP": od, "OHCTOT": om + od, "OHC700": top,
            "_net_in": F - self.fb * (self.tf - net_in / cf) - (p["ocean_efficacy"] - 1) * ex,
        }


def calm_years(pam, fn, fs, vn, vs, limit=60.0):
    """Years before the default model leaves the range where its scheme converges.

    Upwelling scaled by a small threshold temperature grows without bound when it is very cold.
    """
    m = RefUDM(pam)
    if not m.p["threstemp"]:
        limit *= 50
    with np.errstate(all="ignore"):
        for i in range(len(fn)):
            try:
                m.year(fn[i], fs[i], vn[i], vs[i])
            except (ValueError, np.linalg.LinAlgError):
                return i
            if not np.abs(m.T).max() < limit:
                return i
    return len(fn)


def run_thermal(kind, pam, fn, fs, vn, vs, w=None):
    """Run a reference thermal model over years, return dict of series."""
    m = RefTwoLayer(pam) if kind == "twolayer" else RefUDM(pam)
    out = {k: [] for k in m.OUT}
    for i in range(len(fn)):
        if w is not None:
            m.set_w(w[i])
        v = m.year(fn[i], fs[i], vn[i], vs[i])
        for k, kk in m.OUT.items():
            out[k].append(v[kk])
    return {k: np.array(v) for k, v in out.items()}


# ---------------------------------------------------------------------------
# carbon cycle
# ---------------------------------------------------------------------------
CARBON_DEFAULT = {
    "beta_f": 0.287, "mixed_carbon": 75.0, "ml_w_sigmoid": 3.0, "ml_fracmax": 0.5,
    "ml_t_half": 0.5, "t_half": 0.5, "w_sigmoid": 7, "t_threshold": 4,
    "w_threshold": 7, "solubility_sens": 0.02, "solubility_limit": 0.5,
    "ml_depth_min": 10.0, "preindustrial_co2_conc": 278.0,
}
PGC_PPM = 2.123


def ref_rs(t, fun=None):
    """Ocean mixed layer pulse response at time t (years, array)."""
    t = np.asarray(t, float)
    if fun is not None:
        c = np.asarray(fun["coeffs"], float)
        c = c / c.sum()
        tau = np.asarray(fun["timescales"], float)
        return c[0] + sum(ci * np.exp(-t / ti) for ci, ti in zip(c[1:], tau))
    early = (0.12935 + 0.21898 * np.exp(-t / 0.034569) + 0.17003 * np.exp(-t / 0.26936)
             + 0.24071 * np.exp(-t / 0.96083) + 0.24093 * np.exp(-t / 4.9792))
    late = (0.022936 + 0.24278 * np.exp(-t / 1.2679) + 0.13963 * np.exp(-t / 5.2528)
            + 0.089318 * np.exp(-t / 18.601) + 0.03782 * np.exp(-t / 68.736)
            + 0.035549 * np.exp(-t / 232.3))
    return np.where(t < 2.0, early, late)


def ref_rb(t, fun=None):
    """Biotic decay function at time t (years)."""
    t = np.asarray(t, float)
    if fun is not None:
        c = np.asarray(fun["coeffs"], float)
        c = c / c.sum()
        tau = np.asarray(fun["timescales"], float)
        return sum(ci / ti ** 2 * t * np.exp(-t / ti) for ci, ti in zip(c, tau))
    return (0.70211 * np.exp(-0.35 * t) + 13.4141e-3 * np.exp(-t / 20.0)
            - 0.71846 * np.exp(-55 * t / 120.0) + 2.9323e-3 * np.exp(-t / 100.0))


class RefCarbon:
    """Joos et al. pulse response carbon cycle."""

    ZMAX = 293.5
    POLY = (1.3021, 3.7929e-3, 9.1193e-6, 1.488e-8, 1.2425e-10)

    def __init__(self, nyears, idtm=24, pam=None, rs=None, rb=None):
        p = dict(CARBON_DEFAULT)
        p.update({k: v for k, v in (pam or {}).items() if k in p})
        self.p, self.n, self.idtm = p, nyears, int(idtm)
        t = np.arange(self.idtm * nyears) / self.idtm
        self.rs, self.rb = ref_rs(t, rs), ref_rb(t, rb)
        self.flux = np.zeros(self.idtm * nyears)  # air-sea, ppm-units
        self.npp = np.zeros(self.idtm * nyears)  # extra NPP
        self.land = np.zeros(self.idtm * nyears)  # net land uptake
        self.x = p["preindustrial_co2_conc"]
        self.y = 0.0
        self.acc = 0.0
        self.first = 0.0
        self.eprev = 0.0
        self.zmax_seen = 0.0
        self.state_iter = []

    # temperature feedbacks
    def fnpp(self, T):
        p = self.p
        up = lambda x: 1 / (1 + np.exp(-(x - p["t_half"]) / p["w_sigmoid"]))
        down = lambda x: 1 - 1 / (1 + np.exp(-(x - p["t_threshold"]) / p["w_threshold"]))
        return 60.0 * up(T) * down(T) / (up(0.0) * down(0.0))

    def solub(self, T):
        p = self.p
        return np.clip(np.exp(-p["solubility_sens"] * T), 0, 1 + p["solubility_limit"])

    def depth(self, T):
        p = self.p
        sg = lambda x: 1 / (1 + np.exp(-(x - p["ml_t_half"]) / p["ml_w_sigmoid"]))
        d = p["mixed_carbon"] * (1 - p["ml_fracmax"] * sg(T)) / (1 - p["ml_fracmax"] * sg(0.0))
        return np.maximum(d, p["ml_depth_min"])

    def pco2(self, z):
        f = lambda v: sum(c * v ** (i + 1) for i, c in enumerate(self.POLY))
        if z <= self.ZMAX:
            return f(z)
        df = sum((i + 1) * c * self.ZMAX ** i for i, c in enumerate(self.POLY))
        return f(self.ZMAX) + df * self.ZMAX * np.log(z / self.ZMAX)

    def snapshot(self):
        return (self.x, self.y, self.acc, self.first, self.eprev)

    def restore(self, s):
        self.x, self.y, self.acc, self.first, self.eprev = s

    def year(self, iy, em, T=0.0):
        p, m = self.p, self.idtm
        dt = 1.0 / m
        k = 1 / 9.06  # gas exchange per year times ocean area
        ge = 1 / (3.62e14 * 9.06)
        cc = dt * k / (1 + dt * k / 2)
        sol, dep, fn = self.solub(T), self.depth(T), self.fnpp(T)
        for i in range(m):
            it = iy * m + i
            back = 0.0
            if it > 0:
                self.npp[it] = fn * p["beta_f"] * np.log(self.x / p["preindustrial_co2_conc"])
                # NPP of steps 1..it-1 decays with age it-1-j steps
                back = float(np.dot(self.npp[1:it], self.rb[:it - 1][::-1]))
            self.land[it] = self.npp[it] - dt * back
            e = (em - self.land[it]) / PGC_PPM
            if it == 0:
                self.first = 0.5 * e / k
                last = self.first
                self.acc = 0.0
            else:
                last = 0.5 * e / k - self.y / (dt * k)
                self.acc += self.eprev / k - self.flux[it - 1]
            self.flux[it] = cc * (self.acc + self.first + last)
            self.eprev = e
            stored = 0.0
            if it > 0:
                stored = float(np.dot(self.flux[:it - 1], self.rs[1:it][::-1]))
            z = 1.722e17 * ge * dt / dep * (stored + 0.5 * self.flux[it])
            self.zmax_seen = max(self.zmax_seen, z)
            yprev = self.y
            self.y = sol * self.pco2(z)
            self.x = self.flux[it] + 0.5 * (self.y + yprev) + p["preindustrial_co2_conc"]
        return self.x

    def yearly(self, arr):
        return arr.reshape(self.n, self.idtm).mean(axis=1)

    def land_flux(self):
        return self.yearly(self.land)

    def ocean_flux(self):
        return self.yearly(self.flux) * PGC_PPM / 9.06

    def land_flux_from_conc(self, conc, T):
        m = self.idtm
        npp = np.repeat(self.p["beta_f"] * np.log(np.asarray(conc) / self.p["preindustrial_co2_conc"])
                        * self.fnpp(np.asarray(T, float)), m)
        back = np.zeros(len(npp))
        for it in range(1, len(npp)):
            back[it] = np.dot(npp[1:it], self.rb[:it - 1][::-1])
        return (npp - back / m).reshape(-1, m).mean(axis=1)


def stable_years(ref, em, T, exp):
    """
    Years for which the result is determined by the inputs in double precision.

    For coarse sub-steps and some parameters the scheme amplifies rounding
    errors; two correct codings then differ.  Found by a second reference run
    with emissions changed in the 11th digit.
    """
    exp = np.asarray(exp, float)
    with np.errstate(all="ignore"):
        for i, e in enumerate(exp):
            x = ref.year(i, em[i] * (1 + 1e-11) + 1e-12, T[i])
            if not abs(x - e) <= 3e-10 * abs(e):
                return i
    return len(exp)


BOX_DEFAULT = {
    "beta_f": 0.287, "land_temp_sensitivity": 0.1, "soil_respiration_rate": 0.02,
    "ocean_mixed_layer_depth": 25.0, "ocean_exchange_rate": 0.01,
    "vegetation_to_soil_fraction": 0.1, "ocean_solubility_base": 0.02,
    "ocean_solubility_temp_coeff": -0.01,
}


class RefBox:
    """Box carbon cycle: atmosphere (ppm), vegetation, soil, mixed, deep (PgC)."""

    def __init__(self, pam=None):
        self.p = dict(BOX_DEFAULT)
        self.p.update({k: v for k, v in (pam or {}).items() if k in BOX_DEFAULT})
        self.atm, self.veg, self.soil, self.mix, self.deep = 278.0, 600.0, 3000.0, 0.0, 0.0

    def npp(self, T, c):
        return np.maximum(0.0, 60.0 + self.p["beta_f"] * np.log(c / 278.0) - self.p["land_temp_sensitivity"] * T)

    def ocean(self, T, c):
        return self.p["ocean_solubility_base"] * (1 + self.p["ocean_solubility_temp_coeff"] * T) * (c - 278.0)

    def year(self, em, T=0.0):
        p = self.p
        npp, oc = self.npp(T, self.atm), self.ocean(T, self.atm)
        lit, resp = self.veg * p["vegetation_to_soil_fraction"], self.soil * p["soil_respiration_rate"]
        down = (self.mix - self.deep) * p["ocean_exchange_rate"]
        self.veg += npp - lit
        self.soil += lit - resp
        self.mix += oc - down
        self.deep += down
        self.atm += (em - oc + resp - npp) / PGC_PPM
        return self.atm

    def total(self):
        return self.atm * PGC_PPM + self.veg + self.soil + self.mix + self.deep


# ---------------------------------------------------------------------------
# gases and forcing
# ---------------------------------------------------------------------------
EMI_DEFAULT = {
    "qbmb": 0.0, "qo3": 0.5, "qdirso2": -0.00308, "qindso2": -0.97 / 57.052577209999995,
    "qbc": 0.0279, "qoc": -0.00433, "qh2o_ch4": 0.091915, "ref_yr": 2010,
    "qnmvoc": 0.0, "qnh3": 0.0, "qnox": 0.0,
}
MAIN = ("CO2", "CH4", "N2O")


def vanilla(gas):
    return [g for g in gas.index if g not in MAIN and gas.at[g, "CONC_UNIT"] != "-"]


def box_step(c, e, beta, q):
    """Exact one year solution of dc/dt = e/beta - q c."""
    eq = e / beta / q
    return eq + (c - eq) * np.exp(-q)


def ref_concentrations(gas, emis, conc_in, nat, years, emstart, conc_run, lifetime="TAR"):
    """Concentrations of all gases but CO2 (dict name -> array)."""
    out = {}
    for g in list(vanilla(gas)) + ["CH4", "N2O"]:
        c = np.zeros(len(years))
        for i, y in enumerate(years):
            if conc_run or y < emstart:
                c[i] = conc_in.at[y, g]
                continue
            prev = c[i - 1] if i > 0 else conc_in.at[y, g]
            e = emis.at[y, g]
            q = 1.0 / gas.at[g, "TAU1"]
            if g in nat:
                e = e + nat[g][y]
            else:
                e = e + gas.at[g, "NAT_EM"]
            if g == "CH4":
                if lifetime == "TAR":
                    d = lambda s: emis.at[y, s] - emis.at[2000, s]
                    q *= 1 + (-0.32 * np.log(prev / 1751.0) + 0.0042 * d("NOx")
                              - 0.000105 * d("CO") - 0.000315 * d("NMVOC"))
                elif lifetime == "CONSTANT_12":
                    q = 1 / 12.0
                elif lifetime == "WIGLEY":
                    q *= (prev / 1700.0) ** -0.238
                q += 1.0 / gas.at["CH4", "TAU2"] + 1.0 / gas.at["CH4", "TAU3"]
            c[i] = box_step(prev, e, gas.at[g, "BETA"], q)
        out[g] = c
    return out


def halogens(names):
    """Number of Cl and Br atoms per compound, from chemistry of the names."""
    cl, br = {}, {}
    for name in names:
        if "CFC-" in name:  # also HCFC-
            digits = "".join(ch for ch in name.split("-")[1] if ch.isdigit())
            num = int(digits)
            dbl, c, h, f = num // 1000, (num // 100) % 10 + 1, (num // 10) % 10 - 1, num % 10
            cl[name] = 2 * c + 2 - 2 * dbl - h - f
        elif name.startswith("H-"):  # halon C F Cl Br
            d = name[2:]
            br[name] = int(d[3])
            if int(d[2]):
                cl[name] = int(d[2])
        else:
            for sym, out in (("Cl", cl), ("Br", br)):
                n = 0
                for rest in name.split(sym)[1:]:
                    num = ""
                    while rest[len(num):len(num) + 1].isdigit():
                        num += rest[len(num)]
                    n += int(num) if num else 1
                if n:
                    out[name] = n
    return cl, br


REF_EMIS = {
    "SO2": ("SO2", "qdirso2"), "SO4_IND": ("SO2", "qindso2"), "OC": ("OC", "qoc"),
    "BC": ("BC", "qbc"), "BMB_AEROS": ("BMB_AEROS_OC", "qbmb"),
    "NMVOC": ("NMVOC", "qnmvoc"), "NH3": ("NH3", "qnh3"), "NOx": ("NOx", "qnox"),
}


def is_aerosol(t):
    return t in ("NMVOC", "NH3", "NOx") or t[:2] in ("BC", "OC", "SO", "BM")


def trop_o3_conc(emis, ch4, ch4_ref, years, ref_yr):
    d = lambda s: np.array([emis.at[y, s] - emis.at[ref_yr, s] for y in years])
    return (30.0 + 6.7 * np.log(ch4 / ch4_ref) + 0.17 * d("NOx") + 0.0014 * d("CO")
            + 0.0042 * d("NMVOC"))


def ref_forcing(gas, emis, conc, ch4_ref, years, pam, luc):
    """
    Component forcings from concentrations (dict of arrays over years).

    Does not include perturbations.  Column names as in model output
    (SO2 is reported as SO4_DIR).
    """
    p = dict(EMI_DEFAULT)
    p.update({k: v for k, v in (pam or {}).items() if k in p})
    for a, qn in (("SO2", "qdirso2"), ("BC", "qbc"), ("OC", "qoc")):
        if any(g.startswith(a + "_") for g in gas.index):
            p[qn] = 0.0
    erf = lambda g: gas.at[g, "SARF_TO_ERF"]
    out = {}
    co2, ch4, n2o = (np.asarray(conc[g], float) for g in MAIN)
    c0, m0, n0 = co2[0], ch4[0], n2o[0]
    nbar, cbar, mbar = 0.5 * (n2o + n0), 0.5 * (co2 + c0), 0.5 * (ch4 + m0)
    out["CO2"] = erf("CO2") * (-2.4e-7 * (co2 - c0) ** 2 + 7.2e-4 * abs(co2 - c0) - 2.1e-4 * nbar + 5.36) * np.log(co2 / c0)
    out["N2O"] = erf("N2O") * (-8.0e-6 * cbar + 4.2e-6 * nbar - 4.9e-6 * mbar + 0.117) * (np.sqrt(n2o) - np.sqrt(n0))
    out["CH4"] = erf("CH4") * (-1.3e-6 * mbar - 8.2e-6 * nbar + 0.043) * (np.sqrt(ch4) - np.sqrt(m0))
    van = vanilla(gas)
    for g in van:
        c = np.asarray(conc[g], float)
        out[g] = gas.at[g, "ALPHA"] * erf(g) * (c - c[0])
    cl, br = halogens(gas.index)
    sumcl, sumbr = np.zeros(len(years)), np.zeros(len(years))
    for i in range(3, len(years)):
        for g, n in cl.items():
            d = conc[g][i - 3] - conc[g][0]
            sumcl[i] += np.sign(d) * (n * abs(d)) ** 1.7
        for g, n in br.items():
            sumbr[i] += n * (conc[g][i - 3] - conc[g][0])
    out["STRAT_O3"] = -0.05 / 0.17377 * (0.000552 * sumcl + 3.048 * sumbr) / 1000.0 * erf("STRAT_O3")
    for g in gas.index:
        if g in out:
            continue
        q = np.zeros(len(years))
        if g == "LANDUSE":
            q = np.asarray(luc, float)[:len(years)].copy()
        elif is_aerosol(g):
            if gas.at[g, "ALPHA"] != 0:
                s, fac = g, gas.at[g, "ALPHA"]
            elif g in REF_EMIS:
                s, fac = REF_EMIS[g][0], p[REF_EMIS[g][1]]
            else:
                s, fac = None, 0.0
            if s is not None:
                q = fac * np.array([emis.at[y, s] - emis.at[years[0], s] for y in years])
        elif g == "TROP_O3":
            o3 = trop_o3_conc(emis, ch4, ch4_ref, years, p["ref_yr"])
            if o3[0] != 30.0:
                q = (o3 - o3[0]) / (30.0 - o3[0]) * p["qo3"] * erf(g)
        elif g == "STRAT_H2O":
            q = p["qh2o_ch4"] * out["CH4"] * erf(g)
        out[g] = q
    if "SO2" in out:
        out["SO4_DIR"] = out.pop("SO2")
    return out


def hemi_weight(name):
    """Weight of the northern hemisphere (southern is 2 - this)."""
    if name in ("SO4_DIR", "SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC"):
        return 1.47
    if name == "TROP_O3":
        return 1.45
    if name == "LANDUSE":
        return 1.42
    return 1.0


def hemispheres(forc, sun, just_one=None):
    """Total and hemispheric forcing from a dict of component forcings."""
    if just_one is not None:
        just_one = "SO4_DIR" if just_one == "SO2" else just_one
        forc = {just_one: forc[just_one]}
    tot = sum(np.asarray(v, float) for v in forc.values())
    nh = sum(hemi_weight(k) * np.asarray(v, float) for k, v in forc.items()) + sun
    sh = sum((2 - hemi_weight(k)) * np.asarray(v, float) for k, v in forc.items()) + sun
    return tot, nh, sh

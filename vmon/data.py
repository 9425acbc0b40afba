"""Inputs of runs: truth tables held by the harness, delivered as files or data."""
import functools
import os

import numpy as np
import pandas as pd

from .common import ROOT

DATA = os.path.join(ROOT, "data")
Y0, Y1 = 1750, 2500
HEAD = [1, 2, 3]
NOT_EMITTED = ("SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS", "LANDUSE", "OTHER")
GAS_FILES = {
    "wmo": "gases_vupdate_2024_WMO.txt", "new": "gases_vupdate_2024_WMO_added_new.txt",
    "v1": "gases_v1RCMIP.txt", "ar6": "gases_vupdate_2022_AR6.txt",
}
REGIONS = ("ASIA", "LAM", "MAF", "OECD", "REF")


@functools.lru_cache(None)
def _table(name):
    return pd.read_csv(os.path.join(DATA, name), sep=r"\s+", index_col=0, skiprows=HEAD)


def base_emis(regional=False):
    df = _table("ssp245_with_regional_aerosols_em_RCMIP.txt" if regional else "ssp245_em_RCMIP.txt").copy()
    df = df.rename(columns={"CO2": "CO2_FF", "CO2.1": "CO2_AFOLU"}).loc[Y0:Y1].astype(float)
    df.index = df.index.astype(int)
    df.index.name = "Component"
    return df


def base_conc():
    df = _table("ssp245_conc_RCMIP.txt").loc[Y0:Y1].astype(float).copy()
    df.index = df.index.astype(int)
    return df


@functools.lru_cache(None)
def _gas(name):
    df = pd.read_csv(os.path.join(DATA, GAS_FILES[name]), sep=r"\s+", index_col=0)
    return df.rename(columns={"TAU1(YEARS)": "TAU1", "NATURAL_EMISSIONS": "NAT_EM"})


def base_gas(name="wmo"):
    df = _gas(name).copy()
    for col in df.columns:
        if col not in ("EM_UNIT", "CONC_UNIT"):
            df[col] = df[col].astype(float)
    return df


@functools.lru_cache(None)
def _cols(name):
    df = pd.read_csv(os.path.join(DATA, name), header=None, sep=r"\s+")
    df.index = np.arange(Y0, Y0 + len(df))
    return df


def default_luc():
    return _cols("IPCC_LUCalbedo.txt").copy()


def default_sun():
    return _cols("solar_IPCC.txt").copy()


def default_volc():
    return _cols("meanVOLCmnd_ipcc_NH.txt").copy()


def default_nat(comp):
    df = pd.read_csv(os.path.join(DATA, f"natemis_{comp.lower()}.txt"), header=None, names=[comp])
    df.index = np.arange(Y0, Y1 + 1)
    return df


# -- variation ---------------------------------------------------------------
def vary_frame(rng, df, amp=0.3, floor=0.01):
    """Smoothly and randomly changed positive table."""
    n, m = df.shape
    t = np.arange(n)[:, None]
    fac = 1 + amp * (rng.uniform(0.3, 1, m) * np.sin(2 * np.pi * t / rng.uniform(15, 90, m) + rng.uniform(0, 6.3, m)))
    fac *= np.exp(amp * rng.normal(size=m))
    vals = df.to_numpy() * fac
    mean = np.abs(df.to_numpy()).mean(axis=0)
    mean = np.where(mean > 0, mean, 1.0)
    vals = vals + floor * mean * (1 + rng.uniform(0, 1, (n, m)))
    return pd.DataFrame(vals, index=df.index.copy(), columns=df.columns.copy())


def vary_gas(rng, df, alpha_aerosol=True):
    df = df.copy()
    n = len(df)
    for col in ("ALPHA", "TAU1", "BETA", "TAU2", "TAU3"):
        df[col] = df[col] * rng.uniform(0.75, 1.3, n)
    df["SARF_TO_ERF"] = df["SARF_TO_ERF"] * rng.uniform(0.8, 1.25, n)
    df["NAT_EM"] = df["NAT_EM"] * rng.uniform(0.8, 1.2, n)
    for g in df.index:
        if df.at[g, "CONC_UNIT"] == "ppt" and rng.random() < 0.3:
            df.at[g, "NAT_EM"] = rng.uniform(0.1, 5)
        if df.at[g, "CONC_UNIT"] == "ppt" and rng.random() < 0.04:
            df.at[g, "TAU1"] = rng.choice([0.05, 0.3, 1.0, 1e4])
        if df.at[g, "CONC_UNIT"] == "ppt" and rng.random() < 0.03:
            df.at[g, "ALPHA"] = rng.choice([0.0, -df.at[g, "ALPHA"]])
    if rng.random() < 0.5:
        df.at["CO2", "NAT_EM"] = rng.uniform(-0.3, 0.5)
    if alpha_aerosol:
        for g in ("NH3", "NMVOC", "NOx", "BMB_AEROS_BC", "BMB_AEROS_OC", "SO2", "BC", "OC"):
            if rng.random() < 0.25:
                df.at[g, "ALPHA"] = rng.uniform(-0.004, 0.004)
    return df


def add_regional(gas, rng=None):
    """Regional rows for BC, OC, SO2."""
    rows = {}
    for a, size in (("BC", 0.03), ("OC", -0.004), ("SO2", -0.003)):
        for i, r in enumerate(REGIONS):
            row = gas.loc[a].copy()
            row["ALPHA"] = size * (1 + 0.2 * i) if rng is None else size * rng.uniform(0.5, 1.5)
            rows[f"{a}_{r}"] = row
    extra = pd.DataFrame(rows).T
    out = pd.concat([gas, extra])
    for col in out.columns:
        if col not in ("EM_UNIT", "CONC_UNIT"):
            out[col] = out[col].astype(float)
    out.index.name = gas.index.name
    return out


def extend_for_gas(rng, gas, emis, conc):
    """Columns for gases that the base tables do not have."""
    emis, conc = emis.copy(), conc.copy()
    t = np.arange(len(emis)) / len(emis)
    for g in gas.index:
        if g in ("CO2",) or g in NOT_EMITTED:
            continue
        if g not in emis.columns:
            emis[g] = 5 + 20 * np.abs(np.sin(rng.uniform(1, 9) * t * 6)) * rng.uniform(0.5, 1.5)
        if gas.at[g, "CONC_UNIT"] != "-" and g not in conc.columns:
            conc[g] = 1 + 10 * t * rng.uniform(0.5, 1.5) + np.sin(9 * t + rng.uniform(0, 6)) ** 2
    return emis, conc


# -- one run ------------------------------------------------------------------
class Setup:
    """Inputs of a run."""

    def __init__(self, **kw):
        self.mode = "emis"  # emis or conc
        self.nystart, self.nyend, self.emstart, self.idtm = 1750, 2100, 1850, 24
        self.thermal = self.carbon = "default"
        self.gas = base_gas("wmo")
        self.emis, self.conc = base_emis(), base_conc()
        self.nat = {}  # component -> frame by year
        self.sunvolc = 0
        self.sun = self.luc = None  # frame by year, None: default
        self.volc = self.volc_n = self.volc_s = None
        self.pert_em = self.pert_forc = None
        self.udm, self.emi, self.carb = {}, {}, {}
        self.rs = self.rb = None  # given in cfg
        self.deliver = {}
        self.frame_pad = {}
        self.extra_cfg = {}
        for k, v in kw.items():
            if not hasattr(self, k):
                raise KeyError(k)
            setattr(self, k, v)

    @property
    def years(self):
        return list(range(self.nystart, self.nyend + 1))

    def how(self, key):
        return self.deliver.get(key, "data")

    # truth ---------------------------------------------------------------
    def t_luc(self):
        return (default_luc() if self.luc is None else self.luc).loc[self.years].to_numpy()[:, 0]

    def t_sun(self):
        if self.sunvolc != 1:
            return np.zeros(len(self.years))
        return (default_sun() if self.sun is None else self.sun).loc[self.years].to_numpy()[:, 0]

    def t_volc(self):
        """Columns for north and south (list of arrays by year)."""
        if self.sunvolc != 1:
            z = np.zeros((len(self.years), 12))
            return z, z
        if self.volc is not None:
            v = self.volc.loc[self.years].to_numpy()
            return v, v
        if self.volc_n is None and self.volc_s is None:
            v = default_volc().loc[self.years].to_numpy()
            return v, v
        return self.volc_n.loc[self.years].to_numpy(), self.volc_s.loc[self.years].to_numpy()

    def t_nat(self):
        out = {}
        for comp in ("CH4", "N2O"):
            if comp in self.nat:
                s = self.nat[comp][comp]
                out[comp] = {y: s.loc[y] for y in self.years}
            else:
                out[comp] = {y: self.gas.at[comp, "NAT_EM"] for y in self.years}
        return out

    def t_emis(self):
        """Emissions with emission perturbations."""
        em = self.emis.copy()
        if self.pert_em is not None:
            for _, row in self.pert_em.iterrows():
                c = "CO2_FF" if row["component"] == "CO2" else row["component"]
                em.loc[row["year"], c] += row["emission"]
        return em

    # delivery ------------------------------------------------------------
    def cfg(self, folder="."):
        c = {"nystart": self.nystart, "nyend": self.nyend, "emstart": self.emstart, "idtm": self.idtm}
        if self.thermal != "default":
            c["thermal_model"] = self.thermal
        if self.carbon != "default":
            c["carbon_cycle_model"] = self.carbon
        if self.mode == "conc":
            c["conc_run"] = True
        self._put(c, "gaspam", self.gas, folder, write_gas)
        self._put(c, "emissions", self._cut("emissions", self.emis), folder,
                  lambda df, fn: write_emis(df, fn, self.gas))
        self._put(c, "concentrations", self._cut("concentrations", self.conc), folder,
                  lambda df, fn: write_conc(df, fn, self.gas))
        for comp, df in self.nat.items():
            self._put(c, f"nat_{comp.lower()}", df, folder, write_col)
        if self.sunvolc:
            c["sunvolc"] = self.sunvolc
        self.sunvolc_cfg(c, folder)
        for key, df in (("perturb_em", self.pert_em), ("perturb_forc", self.pert_forc)):
            if df is not None:
                self._put(c, key, df, folder, lambda d, fn: d.to_csv(fn, index=False))
        if self.rs is not None:
            c["rs_function"] = self.rs
        if self.rb is not None:
            c["rb_function"] = self.rb
        c.update(self.extra_cfg)
        return c

    def sunvolc_cfg(self, c, folder):
        for key, df in (("rf_sun", self.sun), ("rf_volc", self.volc), ("rf_volc_n", self.volc_n),
                        ("rf_volc_s", self.volc_s), ("rf_luc", self.luc)):
            if df is None:
                continue
            if self.how(key) == "file":
                fn = os.path.join(folder, f"{key}.txt")
                write_col(df, fn)
                c[f"{key}_file"] = fn
            else:
                c[f"{key}_data"] = df.loc[self.years].copy()

    def _cut(self, key, df):
        lo, hi = self.frame_pad.get(key, (0, 0))
        return df.loc[max(Y0, self.nystart - lo):min(Y1, self.nyend + hi)].copy()

    def _put(self, c, key, df, folder, writer):
        if self.how(key) == "file":
            fn = os.path.join(folder, f"{key}.txt")
            writer(df, fn)
            c[f"{key}_file"] = fn
        else:
            c[f"{key}_data"] = df.copy()

    def describe(self):
        return (f"{self.mode} {self.nystart}-{self.nyend} em{self.emstart} idtm{self.idtm} "
                f"{self.thermal}/{self.carbon} sv{self.sunvolc}")


def write_gas(df, fn):
    df = df.rename(columns={"TAU1": "TAU1(YEARS)", "NAT_EM": "NATURAL_EMISSIONS"})
    df.index.name = "GAS"
    with open(fn, "w", encoding="utf8") as fw:
        fw.write("GAS " + "\t".join(df.columns) + "\n")
        for g in df.index:
            fw.write(g + "\t" + "\t".join(_num(v) for v in df.loc[g]) + "\n")


def _num(v):
    return v if isinstance(v, str) else repr(float(v))


def _unit(gas, c, col):
    c = "CO2" if c.startswith("CO2") else c
    return gas.at[c, col] if c in gas.index else "X"


def write_emis(df, fn, gas):
    cols = list(df.columns)
    head = ["CO2" if c in ("CO2_FF", "CO2_AFOLU") else c for c in cols]
    with open(fn, "w", encoding="utf8") as fw:
        fw.write("Component\t" + "\t".join(head) + "\n")
        fw.write("Unit\t" + "\t".join(_unit(gas, c, "EM_UNIT") for c in cols) + "\n")
        fw.write("Description\t" + "\t".join("total" for _ in cols) + "\n")
        fw.write("Reference\t" + "\t".join("verif" for _ in cols) + "\n")
        for y, row in zip(df.index, df.to_numpy()):
            fw.write(f"{int(y)}\t" + "\t".join(repr(float(v)) for v in row) + "\n")


def write_conc(df, fn, gas):
    cols = list(df.columns)
    with open(fn, "w", encoding="utf8") as fw:
        fw.write("Component\t" + "\t".join(cols) + "\n")
        fw.write("Unit\t" + "\t".join(_unit(gas, c, "CONC_UNIT") for c in cols) + "\n")
        fw.write("Description\t" + "\t".join("total" for _ in cols) + "\n")
        fw.write("Reference\t" + "\t".join("verif" for _ in cols) + "\n")
        for y, row in zip(df.index, df.to_numpy()):
            fw.write(f"{int(y)}\t" + "\t".join(repr(float(v)) for v in row) + "\n")


def write_col(df, fn):
    """Rows from 1750 without header."""
    with open(fn, "w", encoding="utf8") as fw:
        for row in df.to_numpy():
            fw.write("  ".join(repr(float(v)) for v in row) + "\n")


def rand_udm(rng, extreme=False):
    p = {
        "rlamdo": rng.uniform(5, 25), "akapa": rng.uniform(0.1, 1.5), "cpi": rng.uniform(0.1, 0.6),
        "W": rng.uniform(0.5, 5), "beto": rng.uniform(0, 10), "threstemp": rng.choice([0.0, 5.0, 7.0, 11.0, 7.0, 2.0]),
        "lambda": rng.uniform(0.35, 1.3), "mixed": rng.uniform(30, 150), "foan": rng.uniform(0.4, 0.8),
        "foas": rng.uniform(0.5, 0.95), "ebbeta": rng.choice([0.0, 0.5, 3.0]),
        "lm": int(rng.choice([40, 40, 25, 60, 15])), "ldtime": int(rng.choice([12, 12, 6, 24, 4])),
        "ocean_efficacy": rng.choice([1.0, 0.8, 1.3]),
    }
    whole = {k: v for k, v in p.items() if isinstance(v, int)}
    return {**special(rng, p, ("W", "beto", "cpi")), **whole}


def rand_two(rng):
    return {
        "lambda": float(rng.uniform(0.6, 2.2)), "mixed": float(rng.choice([30.0, 50.0, 120.0, 699.0, 700.0, 900.0])),
        "deep": float(rng.uniform(500, 3000)), "k": float(rng.uniform(0.1, 1.2)),
        "ocean_efficacy": float(rng.choice([1.0, 0.7, 1.4])),
        "foan": float(rng.uniform(0.4, 0.8)), "foas": float(rng.uniform(0.5, 0.95)),
    }


def rand_emi(rng, years):
    p = {
        "qbmb": float(rng.uniform(-0.01, 0.01)), "qo3": float(rng.uniform(0.2, 0.8)),
        "qdirso2": float(rng.uniform(-0.006, -0.001)), "qindso2": float(rng.uniform(-0.03, -0.005)),
        "qbc": float(rng.uniform(0.01, 0.05)), "qoc": float(rng.uniform(-0.01, -0.001)),
        "qh2o_ch4": float(rng.uniform(0.03, 0.2)), "ref_yr": int(rng.choice(years)),
        "qnmvoc": float(rng.uniform(-0.002, 0.002)), "qnh3": float(rng.uniform(-0.004, 0.001)),
        "qnox": float(rng.uniform(-0.004, 0.004)),
    }
    return {**special(rng, p, [k for k in p if k[0] == "q"]), "ref_yr": p["ref_yr"]}


def o3_gap(s, ref):
    """First value of tropospheric ozone below the 30 DU of the reference year: the forcing divides by it."""
    em, co, y0 = s.emis, s.conc, s.nystart
    d = 6.7 * np.log(co.at[y0, "CH4"] / co.at[ref, "CH4"])
    for c, f in (("NOx", 0.17), ("CO", 0.0014), ("NMVOC", 0.0042)):
        d += f * (em.at[y0, c] - em.at[ref, c])
    return d


def ok_refs(s, years=None):
    """Reference years for which tropospheric ozone is well conditioned."""
    years = s.years if years is None else list(years)
    ok = [y for y in years if y == s.nystart or abs(o3_gap(s, y)) > 0.5]
    return ok or [max(years, key=lambda y: abs(o3_gap(s, y)))]


def rand_carb(rng):
    p = {
        "beta_f": rng.uniform(0.1, 0.6), "mixed_carbon": rng.uniform(30, 200), "ml_w_sigmoid": rng.uniform(1, 5),
        "ml_fracmax": rng.uniform(0, 0.8), "ml_t_half": rng.uniform(0.2, 2), "t_half": rng.uniform(0.2, 2),
        "w_sigmoid": rng.uniform(3, 10), "t_threshold": rng.uniform(2, 6), "w_threshold": rng.uniform(3, 10),
        "solubility_sens": rng.uniform(0, 0.06), "solubility_limit": rng.uniform(0.2, 0.8),
    }
    return special(rng, p, ("beta_f", "ml_fracmax", "solubility_sens", "ml_t_half", "t_half", "solubility_limit"))


def special(rng, p, names, prob=0.03):
    """Now and then nothing of something."""
    return {k: 0.0 if k in names and rng.random() < prob else float(v) for k, v in p.items()}


def rand_box(rng, wide=False):
    """Parameters; unless wide, the initial pools are near enough to balance to keep CO2 positive."""
    p = {
        "beta_f": rng.uniform(0.1, 2), "land_temp_sensitivity": rng.uniform(0, 0.5),
        "soil_respiration_rate": rng.uniform(0.01, 0.04) if wide else rng.uniform(0.0195, 0.03), "ocean_mixed_layer_depth": rng.uniform(10, 100),
        "ocean_exchange_rate": rng.uniform(0.001, 0.1), 
        "vegetation_to_soil_fraction": rng.uniform(0.05, 0.2) if wide else rng.uniform(0.09, 0.15),
        "ocean_solubility_base": rng.uniform(0.005, 0.05), "ocean_solubility_temp_coeff": rng.uniform(-0.05, 0),
    }
    return special(rng, p, ("beta_f", "land_temp_sensitivity", "ocean_solubility_temp_coeff"))


def rand_rs(rng, n=None):
    n = int(rng.integers(2, 5)) if n is None else n
    return {"coeffs": [float(x) for x in rng.uniform(0.1, 1, n + 1)],
            "timescales": [float(x) for x in np.sort(rng.uniform(0.5, 200, n))]}


def rand_rb(rng, n=None):
    n = int(rng.integers(1, 4)) if n is None else n
    return {"coeffs": [float(x) for x in rng.uniform(0.1, 1, n)],
            "timescales": [float(x) for x in np.sort(rng.uniform(1, 80, n))]}


def series_frame(rng, ncol, amp=1.0, kind="volc"):
    """Random rows for 1750-2500."""
    n = Y1 - Y0 + 1
    if kind == "volc":
        v = np.where(rng.random((n, 1)) < 0.3, -amp * rng.exponential(1.0, (n, 1)), 0.0)
        v = v * rng.uniform(0, 1, (n, ncol))
        if rng.random() < 0.25:  # anomalies of both signs, or only positive ones
            v = v * rng.choice([-1.0, 1.0], (n, 1)) if rng.random() < 0.6 else -1.5 * v
    else:
        v = amp * rng.normal(size=(n, ncol))
        r = rng.random()
        if r < 0.2:  # years without any
            v = np.where(rng.random((n, 1)) < rng.uniform(0.1, 0.9), 0.0, v)
        elif r < 0.3:  # of one sign
            v = np.abs(v) * rng.choice([-1.0, 1.0])
        elif r < 0.4:
            v = v * 20
        elif r < 0.47:  # given, and nothing
            v = v * 0.0
    return pd.DataFrame(v, index=np.arange(Y0, Y1 + 1))


def rand_window(rng, mode="emis", tar=True, long=False):
    """Year window containing the reference years that a run needs."""
    if long:
        return 1750, 2100
    far = rng.random()  # now and then early, late or long windows
    if mode == "conc" or not tar:
        a = int(rng.integers(1750, 2060))
        if rng.random() < 0.06:
            a = int(rng.integers(1750, 1753))
        if far < 0.1:
            a = int(rng.integers(2060, 2440))
        return a, a + int(rng.integers(5, 45)) + (60 if far > 0.95 else 0)
    a = int(rng.integers(1955, 2000))
    b = int(rng.integers(2010, 2040))
    if far < 0.06:
        a = int(rng.integers(1750, 1950))
    elif far > 0.92:
        b = int(rng.integers(2095, 2260))
    return a, b


def rand_emstart(rng, ny0, ny1):
    return int(rng.choice([ny0 - 20, ny0, ny0 + 1, ny0 + 2, (ny0 + ny1) // 2, ny1, ny1 + 1, ny1 + 30,
                           int(rng.integers(ny0, ny1 + 1))]))


def rand_setup(rng, mode="emis", thermal=None, carbon=None, gas=None, long=False, pams=True,
               perturb=False, sunvolc=None, lifetime=None, regional=None, nat=None, idtm=None):
    """A random valid run."""
    s = Setup()
    s.mode = mode
    s.thermal = thermal or str(rng.choice(["default", "default", "twolayer"]))
    s.carbon = carbon or str(rng.choice(["default", "default", "default", "box"]))
    life = lifetime or str(rng.choice(["TAR", "TAR", "CONSTANT_12", "WIGLEY"]))
    s.nystart, s.nyend = rand_window(rng, mode, life == "TAR", long)
    s.emstart = rand_emstart(rng, s.nystart, s.nyend)
    s.idtm = int(idtm or rng.choice([24, 24, 24, 12, 12, 6, 6, 48]))
    gname = gas or str(rng.choice(["wmo", "wmo", "new", "v1", "ar6"]))
    regional = bool(rng.random() < 0.25) if regional is None else regional
    g = base_gas(gname)
    if pams:
        g = vary_gas(rng, g, alpha_aerosol=not regional)
    em = base_emis(regional)
    if regional:
        g = add_regional(g, rng)
    if rng.random() < 0.3:
        g = g.loc[rng.permutation(g.index)]
    em = vary_frame(rng, em, 0.3)
    em["CO2_AFOLU"] = em["CO2_AFOLU"] - rng.uniform(0, 0.5)
    co = vary_frame(rng, base_conc(), 0.08)
    s.gas, (s.emis, s.conc) = g, extend_for_gas(rng, g, em, co)
    if rng.random() < 0.3:
        s.emis = s.emis[list(rng.permutation(s.emis.columns))]
        # the file format takes the first CO2 column as fossil
        cols = [c for c in s.emis.columns if c != "CO2_AFOLU"]
        i = cols.index("CO2_FF")
        s.emis = s.emis[cols[:i + 1] + ["CO2_AFOLU"] + cols[i + 1:]]
        s.conc = s.conc[list(rng.permutation(s.conc.columns))]
    if rng.random() < 0.2:  # gases that are not emitted, or not until some year
        cols = [c for c in s.conc.columns if c in s.emis.columns and c not in ("CO2", "CH4", "N2O")]
        hit = [str(c) for c in rng.choice(cols, int(rng.integers(1, 5)), replace=False)]
        s.emis.loc[s.emis.index < int(rng.choice([9999, rng.integers(s.nystart, s.nyend + 1)])), hit] = 0.0
    nat = bool(rng.random() < 0.6) if nat is None else nat
    if nat:
        for comp in ("CH4", "N2O"):
            df = default_nat(comp)
            s.nat[comp] = df * rng.uniform(0.8, 1.2, (len(df), 1))
    if sunvolc is None:
        sunvolc = int(rng.random() < 0.5)
    s.sunvolc = sunvolc
    if sunvolc:
        r = rng.random()
        if r < 0.4:
            s.volc = series_frame(rng, int(rng.choice([1, 2, 3, 4, 6, 12, 24])))
        elif r < 0.8:
            s.volc_n = series_frame(rng, int(rng.choice([1, 2, 3, 4, 6, 12, 24])))
            s.volc_s = series_frame(rng, int(rng.choice([1, 2, 3, 4, 6, 12, 24])))
        if rng.random() < 0.6:
            s.sun = series_frame(rng, 1, 0.2, "sun")
    if rng.random() < 0.5:
        s.luc = series_frame(rng, 1, 0.1, "luc")
    if pams:
        s.udm = rand_two(rng) if s.thermal == "twolayer" else rand_udm(rng)
        s.emi = rand_emi(rng, ok_refs(s))
        s.carb = rand_box(rng) if s.carbon == "box" else rand_carb(rng)
    elif mode == "emis" or True:
        if not s.nystart <= 2010 <= s.nyend:
            s.emi["ref_yr"] = int(rng.choice(ok_refs(s)))
    if life != "TAR" or rng.random() < 0.5:
        s.emi["lifetime_mode"] = life
    if perturb:
        s.pert_em, s.pert_forc = rand_perturbations(rng, s)
    for key in ("gaspam", "emissions", "concentrations", "nat_ch4", "nat_n2o", "rf_sun", "rf_volc",
                "rf_volc_n", "rf_volc_s", "rf_luc", "perturb_em", "perturb_forc"):
        s.deliver[key] = str(rng.choice(["file", "data"]))
    for key in ("emissions", "concentrations"):
        s.frame_pad[key] = (int(rng.choice([0, 0, 3, 40])), int(rng.choice([0, 0, 2, 30])))
    return s


def wild(rng, s):
    """Far from any scenario: gases falling below their first year, rising manyfold, strong aerosols."""
    n = len(s.years)
    t = np.zeros(len(s.conc))
    i = s.nystart - Y0
    t[i:i + n] = np.linspace(0, 1, n)[:len(t[i:i + n])]
    t[i + n:] = 1
    for g in s.conc.columns:
        r = rng.random()
        if g in ("CO2", "CH4", "N2O"):
            fac = [0.35, 0.7, 2.5, 5.0][int(rng.integers(4))] if g != "CO2" or s.mode == "conc" else 1.0
        else:
            fac = 0.0 if r < 0.15 else 30.0 if r < 0.3 else 1.0
        s.conc[g] = s.conc[g] * (1 + (fac - 1) * t)
    for g in s.emis.columns:
        if g in ("CO2_FF", "CO2_AFOLU"):
            continue
        fac = [0.0, 1.0, 1.0, 4.0, 12.0][int(rng.integers(5))]
        if g in ("CH4", "N2O", "CO", "NOx", "NMVOC"):
            fac = min(fac, 3.0)
        s.emis[g] = s.emis[g] * (1 + (fac - 1) * t)
    for g in s.emis.columns:  # more removed than emitted in some years
        if rng.random() < 0.15:
            hit = rng.random(len(s.emis)) < 0.1
            s.emis.loc[hit, g] = -np.abs(s.emis.loc[hit, g]) * rng.uniform(0.5, 4 if g not in ("CH4", "CO2_FF") else 1.2)
    if rng.random() < 0.3:
        first, less = int(rng.integers(s.nystart, s.nyend + 1)), rng.uniform(10, 40)
        s.emis.loc[first:first + int(500 / less), "N2O"] -= less  # about 100 ppb in all: never below zero
    for k, lo, hi in (("qbc", -0.3, 0.3), ("qoc", -0.1, 0.1), ("qdirso2", -0.05, 0.03), ("qindso2", -0.15, 0.05), ("qbmb", -0.3, 0.3),
                      ("qo3", -2, 3), ("qh2o_ch4", -0.3, 0.6)):
        if rng.random() < 0.4:
            s.emi[k] = float(rng.uniform(lo, hi))
    s.emi["ref_yr"] = int(rng.choice(ok_refs(s)))
    if s.udm.get("threstemp"):
        s.udm["threstemp"] = 7.0  # far below it the upwelling grows until the thermal scheme diverges
    return s


def rand_perturbations(rng, s, n=8):
    years = s.years
    em_names = ["CO2_FF", "CO2_AFOLU", "CH4", "N2O", "SO2", "BC", "NOx", "CO", "NMVOC", "CFC-11", "HFC134a", "SF6", "CO2"]
    em = pd.DataFrame({
        "component": rng.choice(em_names, n), "year": rng.choice(years, n),
        "emission": rng.uniform(-0.2, 2, n),
    })
    fnames = ["CO2", "CH4", "N2O", "SO2", "BC", "OTHER", "LANDUSE", "TROP_O3", "STRAT_O3", "CFC-11", "SF6", "STRAT_H2O", "SO4_IND"]
    fo = pd.DataFrame({
        "component": rng.choice(fnames, n), "year": rng.choice(years, n),
        "forcing": rng.uniform(-0.5, 0.5, n),
    })
    # duplicates of the same component and year
    em = pd.concat([em, em.iloc[:2].assign(emission=0.3)], ignore_index=True)
    fo = pd.concat([fo, fo.iloc[:3].assign(forcing=0.11)], ignore_index=True)
    return em[["component", "year", "emission"]], fo[["component", "year", "forcing"]]


# -- running -----------------------------------------------------------------
def make(s, folder="."):
    from ciceroscm import CICEROSCM

    return CICEROSCM(s.cfg(folder))


def run(s, cscm=None, folder=".", carbon_outputs=False, **kw):
    """Run and return (cscm, results)."""
    if cscm is None:
        cscm = make(s, folder)
    cfg = {"results_as_dict": True}
    if carbon_outputs:
        cfg["carbon_cycle_outputs"] = True
    cfg.update(kw)
    cscm._run(cfg, pamset_udm=dict(s.udm), pamset_emiconc=dict(s.emi), pamset_carbon=_deep(s.carb))
    return cscm, cscm.results


def _deep(d):
    import copy

    return copy.deepcopy(d)


def forc_table(res):
    return {c: res["forcing"][c].to_numpy(float) for c in res["forcing"].columns if c not in ("Year", "Total_forcing")}


def conc_table(res):
    return {c: res["concentrations"][c].to_numpy(float) for c in res["concentrations"].columns if c != "Year"}

"""C18: reported standard variables equal the model results in the stated units."""
import numpy as np

from .. import data as D
from .. import mons as M

RULE = (
    "A case runs the model (emission, concentration or forcing run) and asks the reader for every standard variable, with the gas table "
    "given as file or data; values, years and units are compared with the model results by a name table held by the harness; "
    "aggregates are summed independently. Unknown variables and variables of components that the run does not have must not give "
    "numbers. Non-trivial: series not all zero; distinct by variable, run mode and thermal model."
)
EXPECTED_MONITORS = ["value", "unit", "years", "aggregate", "regions", "carbon", "carbon-pool", "heat", "not-available", "emissions-input", "co2-emissions", "file-data-units"]
FGAS = ["HFC125", "HFC134a", "HFC143a", "HFC152a", "HFC227ea", "HFC236fa", "HFC23", "HFC245fa", "HFC32", "HFC365mfc", "HFC4310mee", "NF3", "C2F6",
        "C3F8", "C4F10", "C5F12", "C6F14", "C7F16", "C8F18", "cC4F8", "CF4", "SF6", "SO2F2"]
MONT = {"CFC-11": "CFC|CFC11", "CFC-12": "CFC|CFC12", "CFC-113": "CFC|CFC113", "CFC-114": "CFC|CFC114", "CFC-115": "CFC|CFC115", "CH3Br": "CH3Br",
        "CCl4": "CCl4", "CH3CCl3": "CH3CCl3", "H-1202": "Halon1202", "H-1211": "Halon1211", "H-1301": "Halon1301", "H-2402": "Halon2402",
        "HCFC-123": "HCFC123", "HCFC-142b": "HCFC142b", "HCFC-141b": "HCFC141b", "HCFC-22": "HCFC22", "CHCl3": "CHCl3", "CH3Cl": "CH3Cl",
        "CH2Cl2": "CH2Cl2"}
ERF = "Effective Radiative Forcing|"
ANT = ERF + "Anthropogenic|"
COMP = {
    ANT + "Aerosol|Aerosol-radiation Interactions|BC": "BC", ANT + "Aerosol|Aerosol-radiation Interactions|OC": "OC",
    ANT + "Aerosol|Aerosol-radiation Interactions|Sulfate": "SO4_DIR", ANT + "Aerosol|Aerosol-cloud Interactions": "SO4_IND",
    ERF + "Aerosols|Direct Effect|SOx": "SO4_DIR",
    ANT + "CO2": "CO2", ANT + "CH4": "CH4", ANT + "N2O": "N2O", ANT + "Other|Stratospheric H2O": "STRAT_H2O",
    ANT + "Ozone|Stratospheric Contribution": "STRAT_O3", ANT + "Ozone|Tropospheric Contribution": "TROP_O3",
}
UNKNOWN = ["Invalid", "", "Surface Temperature", "Effective Radiative Forcing|Nothing", "Atmospheric Concentrations|HFC", "Emissions|Nothing",
           "Carbon Flux|Atmosphere", "Heat Content", "Emissions|BC|x"]
OCEAN_YEAR = 3.61e14 * 86400 * 365.0 / 1e21


def fname(g):
    return f"HFC|{g}" if g.startswith("HFC") else f"PFC|{g}" if g[0] in "Cc" else g


def em_unit(g, unit):
    if g == "N2O" and unit == "Tg_N":
        return "TgN2ON / yr"
    if "_" in unit:
        return unit.replace("_", "") + " / yr"
    return f"{unit}{g.replace('-', '').replace('BMB_AEROS_', '')} / yr"


def cases(rng, tier):
    mult = 6 if tier == "quick" else 10
    out = []
    for k in range(48 * mult):
        out.append({"kind": "run", "mode": ["emis", "conc", "emis"][k % 3], "thermal": ["default", "twolayer"][k % 4 == 1], "outs": k % 5 != 4,
                    "carbon": ["default", "box"][k % 6 == 5], "gas": ["wmo", "new", "v1", "ar6"][(k // 2) % 4], "seed": int(rng.integers(1 << 31)),
                    "cost": 2})
    for k in range(12 * mult):
        out.append({"kind": "forc", "thermal": ["default", "twolayer"][k % 2], "seed": int(rng.integers(1 << 31))})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"run": model_run, "forc": forc_run}[case["kind"]](case, mon, rng)


def readers(s, folder="."):
    from ciceroscm.formattingtools.reformat_cscm_results import CSCMREADER
    from ciceroscm.formattingtools.reformat_inputdata_to_cscm_format import COMMONSFILEWRITER

    D.write_gas(s.gas, f"{folder}/gas_units.txt")
    a = COMMONSFILEWRITER(f"{folder}/gas_units.txt", s.nystart, s.nyend)
    b = COMMONSFILEWRITER(s.gas.copy(), s.nystart, s.nyend)
    return CSCMREADER(s.nystart, s.nyend), a, b


def thermal_table(res):
    out = {"Surface Air Ocean Blended Temperature Change": (res["dT_glob"], "K"), "Heat Uptake": (np.asarray(res["RIB_glob"]) * OCEAN_YEAR, "ZJ / yr"),
           "Heat Content|Ocean": (np.asarray(res["OHCTOT"]) * 10, "ZJ"), "Heat Content|Ocean|0-700m": (np.asarray(res["OHC700"]) * 10, "ZJ")}
    if "dT_glob_air" in res:
        out["Surface Air Temperature Change"] = (res["dT_glob_air"], "K")
        out["Surface Air Ocean Temperature Change"] = (res["dT_glob_sea"], "K")
    return out


class Ask:
    def __init__(self, mon, s, res, reader, writers, ctx):
        self.mon, self.s, self.res, self.reader, self.writers, self.ctx = mon, s, res, reader, writers, ctx

    def series(self, name, variable, exp, unit):
        for how, w in zip(("file", "data"), self.writers):
            years, got, u = self.reader.get_variable_timeseries(self.res, variable, w)
            label = f"{self.ctx} {variable} (gas table {how})"
            self.mon.close(name, np.asarray(got, float), np.asarray(exp, float), 1e-12, 1e-14, label)
            self.mon.check("years", list(np.asarray(years)) == self.s.years, f"{label} years {list(years)[:3]}")
            self.mon.check("unit", u == unit, f"{label} unit {u!r} expected {unit!r}")
        if np.any(np.asarray(exp, float)):
            self.mon.sig(variable, self.s.mode, self.s.thermal)

    def absent(self, variable):
        self.mon.seen("not-available")
        try:
            _, got, u = self.reader.get_variable_timeseries(self.res, variable, self.writers[0])
        except (KeyError, ValueError):
            return
        if u != "NoUnit" and len(got):
            self.mon.fail("not-available", f"{self.ctx} {variable!r} gave {np.asarray(got)[:3]} {u}")


def model_run(case, mon, rng):
    s = D.rand_setup(rng, case["mode"], thermal=case["thermal"], carbon=case["carbon"], gas=case["gas"],
                     perturb=bool(rng.random() < 0.3))
    for g in ("N2O", "CH4", "SO2", "CFC-11"):  # units are those of this gas table
        if rng.random() < 0.3 and all(s.how(k) == "data" for k in ("emissions", "concentrations")):
            s.gas.at[g, "EM_UNIT"] = str(rng.choice(["kt", "Tg", "Tg_N"]))
    _, res = D.run(s, carbon_outputs=case["outs"])
    reader, a, b = readers(s)
    ask = Ask(mon, s, res, reader, (a, b), s.describe())
    mon.check("file-data-units", (a.components, a.units, a.concunits) == (b.components, b.units, b.concunits), f"{s.describe()} units from file and data differ")
    for v, (exp, unit) in thermal_table(res).items():
        ask.series("heat" if v.startswith("Heat") else "value", v, exp, unit)
    forc, conc, em = res["forcing"], res["concentrations"], res["emissions"]
    # an aerosol and its regions: the regional components of a run are part of what is reported for it
    pre = {"BC": "BC_", "OC": "OC_", "SO4_DIR": "SO2_"}
    parts = {c: [c] + [x for x in forc.columns if c in pre and x.startswith(pre[c])] for c in COMP.values()}
    for v, c in COMP.items():
        ask.series("value" if len(parts[c]) == 1 else "regions", v, np.sum([forc[x].to_numpy() for x in parts[c]], axis=0), "W/m^2")
    names = [(ANT + "F-Gases|" + fname(g), "Atmospheric Concentrations|F-Gases|" + fname(g), g) for g in FGAS]
    names += [(ANT + "Montreal Gases|" + m, "Atmospheric Concentrations|Montreal Gases|" + m, g) for g, m in MONT.items()]
    for f, c, g in names:
        if g in s.gas.index:
            ask.series("value", f, forc[g], "W/m^2")
            ask.series("value", c, conc[g], s.gas.at[g, "CONC_UNIT"])
        else:
            ask.absent(f)
            ask.absent(c)
    for g in ("CO2", "CH4", "N2O"):
        ask.series("value", f"Atmospheric Concentrations|{g}", conc[g], s.gas.at[g, "CONC_UNIT"])
    # aggregates
    val = lambda names_: np.sum([forc[c].to_numpy() for c in names_ if c in forc.columns], axis=0)
    aero = parts["BC"] + parts["OC"] + parts["SO4_DIR"]
    ask.series("aggregate", ANT + "Aerosol|Aerosol-radiation Interactions", val(aero), "W/m^2")
    ask.series("aggregate", ANT + "Aerosol", val(aero + ["SO4_IND"]), "W/m^2")
    ask.series("aggregate", ANT + "F-Gases", val(FGAS), "W/m^2")
    ask.series("aggregate", ERF + "Greenhouse Gases", val(FGAS + list(MONT) + ["CO2", "CH4", "N2O", "TROP_O3", "STRAT_O3", "STRAT_H2O"]), "W/m^2")
    tot = forc["Total_forcing"].to_numpy()
    ask.series("aggregate", ANT[:-1], tot, "W/m^2")
    vn, vs = s.t_volc()
    ask.series("aggregate", ERF[:-1], tot + s.t_sun() + (vn.mean(axis=1) + vs.mean(axis=1)) / 2, "W/m^2")
    # emissions
    for g in ("CH4", "N2O"):
        ask.series("value", f"Emissions|{g}", em[g], em_unit(g, s.gas.at[g, "EM_UNIT"]))
    truth = s.t_emis().loc[s.years]
    for c in em.columns:
        if c in truth.columns:
            mon.close("emissions-input", em[c], truth[c], 1e-10, 1e-12, f"{s.describe()} reported emissions {c}")
    df = res.get("carbon cycle")
    if df is not None and "Emissions" in df.columns:
        exp = df["Emissions"]
    else:
        exp = em["CO2"]
        mon.close("co2-emissions", exp, truth["CO2_FF"] + truth["CO2_AFOLU"], 1e-10, 1e-12, f"{s.describe()} reported CO2 emissions")
    if df is not None and case["mode"] == "conc" and s.carbon == "default":
        mon.check("co2-emissions", "Emissions" in df.columns, f"{s.describe()} no back-calculated emissions")
    ask.series("co2-emissions", "Emissions|CO2", exp, em_unit("CO2", s.gas.at["CO2", "EM_UNIT"]))
    # carbon
    cvars = {"Carbon Flux|Land": ("Biosphere carbon flux", "Pg C / yr"), "Carbon Flux|Ocean": ("Ocean carbon flux", "Pg C / yr"),
             "Airborne fraction CO2": ("Airborne fraction CO2", "Unitless")}
    for v, (col, unit) in cvars.items():
        if df is None or col not in df.columns:
            ask.absent(v)
        else:
            ask.series("carbon", v, df[col], unit)
    for v, col in (("Carbon Pool|Land", "Biosphere carbon flux"), ("Carbon Pool|Ocean", "Ocean carbon flux")):
        if df is None or col not in df.columns:
            ask.absent(v)
        else:
            ask.series("carbon-pool", v, np.cumsum(df[col].to_numpy()), "Pg C")
    if df is not None and {"Biosphere carbon flux", "Ocean carbon flux"} <= set(df.columns):
        ask.series("carbon", "Net Flux to Atmosphere|CO2", -(df["Biosphere carbon flux"] + df["Ocean carbon flux"]), "Pg C / yr")
    else:
        ask.absent("Net Flux to Atmosphere|CO2")
    for v in UNKNOWN:
        ask.absent(v)
    # asking changes nothing
    before = M.flat(res)
    ask.series("aggregate", ANT + "F-Gases", val(FGAS), "W/m^2")
    M.same_results(mon, "value", M.flat(res), before, f"{s.describe()} results after reading")
    mon.note = {"run": s.describe(), "gas": case["gas"], "units": dict(zip(a.components[:5], a.units[:5]))}


def forc_run(case, mon, rng):
    from ciceroscm import CICEROSCM

    s = D.Setup(nystart=int(rng.integers(1750, 2050)), thermal=case["thermal"], mode="forc")
    s.nyend = s.nystart + int(rng.integers(5, 50))
    n = len(s.years)
    cfg = {"nystart": s.nystart, "nyend": s.nyend, "thermal_model": s.thermal, "forc_data": np.cumsum(rng.normal(size=n)) * 0.3}
    cscm = CICEROSCM(cfg)
    cscm._run({"results_as_dict": True}, pamset_udm=D.rand_two(rng) if s.thermal == "twolayer" else D.rand_udm(rng))
    reader, a, b = readers(s)
    ask = Ask(mon, s, cscm.results, reader, (a, b), f"forcing run {s.describe()}")
    for v, (exp, unit) in thermal_table(cscm.results).items():
        ask.series("heat" if v.startswith("Heat") else "value", v, exp, unit)
    for v in ["Carbon Flux|Land", "Airborne fraction CO2", "Carbon Pool|Ocean", "Emissions|CH4", "Atmospheric Concentrations|CO2"] + UNKNOWN:
        ask.absent(v)

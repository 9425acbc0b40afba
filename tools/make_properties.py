"""Writes /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
S = "src/ciceroscm/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "state": state or [],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

UDM = "thermal_model/upwelling_diffusion_model.py"
TL = "thermal_model/two_layer_ocean.py"
CC = "carbon_cycle/carbon_cycle_mod.py"
BOX = "carbon_cycle/carbon_cycle_mod_box.py"
CE = "concentrations_emissions_handler.py"
IH = "input_handler.py"

p("C01", "Default thermal model solves its hemispheric upwelling-diffusion balance",
  "For every history of hemispheric forcings and every valid thermal parameter set, each year's surface temperatures (global, per hemisphere, air and sea) of the default thermal model are those of the implicit upwelling-diffusion ocean coupled to the land/ocean energy balance of each hemisphere, stepped ldtime times a year with forcing ramped linearly from the previous year's to this year's value plus the part-of-year volcanic forcing. "
  "All parameters (lambda, rlamdo, akapa, cpi, W, beto, threstemp, mixed, foan, foas, ebbeta, lm, ldtime, ocean_efficacy) act in both hemispheres as documented, and the state carried from one year to the next is only the ocean temperatures and the previous forcing.",
  ["inputs", "histories", "configurations"],
  "all sequences of yearly forcings (ramps, steps, pulses, sign changes, hemispherically asymmetric, volcanic with any number of columns) x all valid parameter combinations",
  "Tests compare a handful of single steps and two stored runs with near-default parameters; hemispheric asymmetry, ebbeta, efficacy, other layer and sub-step counts and threstemp=0 are hardly exercised.",
  [UDM, "thermal_model/abstract_thermal_model.py"],
  [("implicit tridiagonal step", UDM + ":energy_budget"), ("coefficients", UDM + ":coeff, setup_ebud, setup_ebud2"), ("derived parameters", UDM + ":check_pamset")],
  ["yearly output of the thermal model", "dT_* series in the results of forcing runs"],
  [{"name": "tn, ts, prev_values", "meaning": "ocean temperatures per layer and previous forcing", "where": S + UDM}])

p("C02", "Thermal diagnostics are consistent with the state they describe",
  "In every year of every run with the default thermal model, global temperatures are the means of the hemispheric ones, hemispheric surface temperature is the ocean-fraction weighted blend of sea and air temperature, the radiative imbalance of a hemisphere is forcing plus volcanic forcing minus feedback times temperature minus the efficacy-driven radiation of deep ocean heat uptake, and ocean heat contents (total and upper 700 m) are the heat of the layers above that depth weighted by hemispheric ocean area. "
  "Zero forcing gives exactly zero everywhere, and without temperature dependent upwelling the response is linear in the forcing and symmetric under exchange of the hemispheres.",
  ["inputs", "histories", "configurations"],
  "all forcing histories x parameter sets (mixed layer depths below and above multiples of 100 m, different ocean fractions, efficacies)",
  "Tests check single stored numbers; the identities hold between outputs for all inputs and are not asserted at all.",
  [UDM], [("diagnostics", UDM + ":energy_budget, ocean_temperature, _calculate_anomalous_radiation")],
  ["dT_*, RIB_*, OHC* series"])

p("C03", "Two-layer thermal model conserves energy between its two layers",
  "For every forcing history and parameter set the two-layer thermal model advances both layer temperatures by one year per step so that the mixed layer gains forcing (mean of the hemispheres, plus the mean of the hemispheric volcanic forcings) minus feedback minus efficacy-weighted exchange and the deep layer gains exactly the exchange. "
  "Its imbalance, global temperature and ocean heat contents (mixed, deep, total, upper 700 m) follow from those two temperatures, so that the yearly change of total heat content equals the net energy input computed from the state at the start of the year.",
  ["inputs", "histories", "configurations"],
  "all yearly hemispheric and volcanic forcing sequences x all parameters, mixed layers shallower and deeper than 700 m",
  "Unit tests check signs and single steps with symmetric forcing; no multi-year energy accounting and no hemispherically different volcanic input is checked.",
  [TL], [("energy step", TL + ":energy_budget")], ["dT_*, RIB_glob, OHC_* series"])

p("C04", "Pattern effect: feedback follows the aerosol share of forcing each year",
  "In every year the effective feedback of both thermal models is the baseline feedback plus delta_lambda_aero times the aerosol share of that year's forcing magnitude, where the share is the sum of absolute aerosol forcings over the sum of absolute forcings of all agents, lies in [0, 1], and is 0 when there is no forcing or no per-agent information. "
  "The effect of a year never persists into the feedback of later years, and with delta_lambda_aero equal to zero results are exactly those without the pattern effect.",
  ["inputs", "histories", "configurations"],
  "all forcing compositions over time (forcing files with any mixture of agents, regional aerosols, explicit share column; emission and concentration runs) x delta_lambda_aero of either sign x both thermal models",
  "Tests compare only direction of change for one scenario and one-step setters.",
  [UDM, TL, CE, IH, "ciceroscm.py"],
  [("feedback update", UDM + ":set_feedback_gregory"), ("feedback update", TL + ":set_feedback_gregory"), ("share in emission runs", CE + ":conc2forc"), ("share in forcing runs", IH + ":read_forc")],
  ["dT_*, RIB_* series", "feedback in use during each yearly step"])

p("C05", "CO2 from emissions follows the Joos impulse-response carbon cycle",
  "For every emission and temperature history, CO2 concentrations of the default carbon cycle are those of the Joos pulse-response scheme: gas exchange with a mixed layer emptied by the ocean decay function, fertilised land uptake returned by the biotic decay function, with the documented mixed layer, solubility and land temperature feedbacks driven by the previous year's temperature. "
  "Zero emissions leave the preindustrial concentration (the prescribed value of the first year) unchanged, extreme emissions stay finite, and a year's result depends only on emissions and temperatures up to that year.",
  ["inputs", "histories", "configurations"],
  "all emission series (pulses, overshoot, negative, very large), temperature feedback series, parameter sets, custom decay functions, sub-step counts and start years",
  "Tests compare a few stored values with default parameters; temperature feedbacks, custom decay functions over long histories and very high DIC are only touched at single points.",
  [CC, "carbon_cycle/rfuns.py", "carbon_cycle/common_carbon_cycle_functions.py"],
  [("yearly step", CC + ":co2em2conc"), ("ocean partial pressure", CC + ":_calculate_partial_pressure_mixed_layer"), ("decay functions", "carbon_cycle/rfuns.py"), ("feedbacks", CC + ":fnpp_from_temp, solubility_temp_feedback, mixed_layer_temp_feedback")],
  ["CO2 column of concentrations", "return value of the yearly carbon step"],
  [{"name": "co2_hold", "meaning": "carbon cycle state", "where": S + CC}])

p("C06", "Carbon cycle outputs close the carbon budget and invert emissions",
  "In every emission run the reported land and ocean carbon fluxes together with the atmospheric increase account for the emitted carbon; in every run the airborne fraction is the atmospheric increase over cumulative (given or back-calculated) emissions, undefined only in years where these are zero. "
  "In every concentration run the back-calculated emissions reproduce the prescribed CO2 concentrations (to the solver tolerance) when fed forward through the carbon cycle with the same temperatures, and the reported fluxes, mixed layer depth, solubility and primary production are those of that trajectory.",
  ["inputs", "histories", "configurations"],
  "all emission and concentration histories (rising, falling, flat, jagged), temperature series, carbon parameters, custom decay functions",
  "Tests check back-calculation for two smooth series with loose tolerance and never check closure of the budget.",
  [CC, "carbon_cycle/carbon_cycle_abstract.py", "carbon_cycle/common_carbon_cycle_functions.py", CE],
  [("bisection", "carbon_cycle/carbon_cycle_abstract.py:back_calculate_emissions"), ("fluxes", CC + ":get_biosphere_carbon_flux, get_ocean_carbon_flux"), ("airborne fraction", "carbon_cycle/common_carbon_cycle_functions.py:calculate_airborne_fraction")],
  ["carbon cycle table of the results"])

p("C07", "Box carbon cycle conserves carbon",
  "For every emission and temperature history the pools of the box carbon cycle (atmosphere, vegetation, soil, mixed and deep ocean) change by exactly the yearly emissions in total, each flux leaving one pool enters another, and concentration is preindustrial CO2 plus the net flux to the atmosphere. "
  "Net primary production is never negative, all box parameters act as documented, and reported production and ocean flux are those of the concentration and temperature trajectory.",
  ["inputs", "histories", "configurations"],
  "all emission, temperature and parameter combinations, including very warm and strongly negative emission histories and restarts of the instance",
  "Tests take single steps with default parameters and compare loosely.",
  [BOX], [("yearly step", BOX + ":co2em2conc"), ("reset", BOX + ":reset_co2_hold")],
  ["CO2 column of concentrations", "pool attributes after each yearly step"])

p("C08", "Concentrations are prescribed before emissions start and emission-driven after",
  "In every run the concentration of each gas other than CO2 equals the prescribed value in all years before emissions start and in all years of a concentration run (then also for CO2), and from the emission start year on equals the one-box decay of the previous concentration plus anthropogenic and natural emissions with that gas's lifetime and conversion factor. "
  "Methane uses its lifetime mode (TAR with OH feedback, constant 12 years, Wigley exponent) plus the stratospheric and soil sinks and its own natural emission series, as does nitrous oxide; this holds for any order of run start, run end and emission start.",
  ["inputs", "configurations"],
  "all emission and concentration data, gas tables, natural emission series, year windows and lifetime modes",
  "Tests use one scenario with one gas table and two year windows.",
  [CE, IH],
  [("gases without interaction", CE + ":_precalculate_concentrations_vanilla_gases"), ("other gases", CE + ":emi2conc, methane_lifetime, fill_one_row_conc"), ("natural emissions", IH + ":read_natural_emissions, get_flat_natural_emissions")],
  ["concentrations table of the results"])

p("C09", "Each forcing component follows its documented formula",
  "In every year the forcing of each component follows from that year's concentrations and emissions relative to the first year of the run: overlapping CO2, CH4 and N2O formulas, linear efficiencies for other gases, ozone from methane and precursors scaled to the reference year, stratospheric ozone from chlorine and bromine loading three years earlier, stratospheric water vapour from methane, aerosols from emission changes, land use as prescribed, each scaled by its documented adjustment factor. "
  "In the first year all of these are zero except prescribed land use, and regional aerosols replace the corresponding global direct effect instead of adding to it.",
  ["inputs", "configurations"],
  "all emissions, concentrations, gas tables (including additional halogenated gases and regional aerosols), forcing parameters and start years",
  "Tests compare two stored scenario outputs and a few single-year calls with one set of parameters.",
  [CE, "pub_utils.py"],
  [("three main gases", CE + ":calculate_forc_three_main"), ("ozone", CE + ":tropospheric_ozone_forcing, calculate_strat_quantities"), ("aerosols", CE + ":calc_aerosol_forcing, avoid_regional_double_counting"), ("chlorine and bromine counts", "pub_utils.py:make_cl_and_br_dictionaries")],
  ["forcing table of the results"])

p("C10", "Total forcing is the sum of components and is what warms the hemispheres",
  "In every year of every run, total forcing equals the sum of all component forcings, and the forcing handed to each hemisphere of the thermal model is the sum of the components with their hemispheric weights plus solar forcing, so that the hemispheric mean equals total plus solar forcing. "
  "When a single component is selected, total and hemispheric forcing are those of that component alone plus solar, and in forcing runs the total and hemispheric forcings of the file plus solar are used for the year they are given for.",
  ["inputs", "configurations"],
  "all scenarios, gas tables, forcing files (single column, hemispheric, per component), selected components, perturbations and year windows",
  "Tests compare stored totals in two scenarios; no test adds up components or inspects the hemispheric split.",
  [CE, "perturbations.py", "ciceroscm.py", IH],
  [("sum and split", CE + ":conc2forc"), ("weights", "perturbations.py:calculate_hemispheric_forcing"), ("forcing run", "ciceroscm.py:forc_set"), ("forcing files", IH + ":read_forc")],
  ["forcing table and Total_forcing of the results", "arguments of the yearly thermal step"])

p("C11", "A run depends only on its inputs, never on earlier runs or callers' data",
  "Repeated runs of one instance with the same parameters give identical results to each other and to a fresh instance, whatever runs with other thermal, emission or forcing-selection parameters came between (carbon cycle parameters stay as last given, by design), and other instances in the process have no influence. "
  "Running never changes data or parameter values the caller passed in, and results handed out earlier are never changed by a later run.",
  ["histories", "configurations"],
  "all sequences of constructions and runs with different parameter sets, output modes, models and scenarios in one process",
  "Tests run each instance once or twice in a fixed order and never look at inputs or earlier results afterwards.",
  ["ciceroscm.py", CE, IH, "_utils.py", CC],
  [("reset per run", CE + ":reset_with_new_pams"), ("fresh thermal model per run", "ciceroscm.py:_run"), ("copies of inputs", IH + ":get_data")],
  ["results of run histories", "caller-owned objects after the run"])

p("C12", "Outputs are causal: the past never depends on later input or run end",
  "Changing emissions, concentrations, forcing, solar, volcanic, land use or perturbation input after some year (other than the documented reference years) leaves every output up to that year exactly unchanged, in emission, concentration and forcing runs. "
  "Ending a run earlier gives exactly the first part of the longer run for every output series.",
  ["inputs", "histories"],
  "all input changes at all years, all pairs of run ends, all run modes and models",
  "Tests never compare two runs that share a past.",
  ["ciceroscm.py", CE, CC, UDM, IH],
  [("yearly loop", "ciceroscm.py:_run"), ("precalculation", CE + ":_precalculate_vanilla_gases"), ("history convolution", CC + ":co2em2conc")],
  ["all output series"])

p("C13", "Files and in-memory data are interchangeable on input and output",
  "Giving any input as a file or as the corresponding data object gives identical runs for any year window, each row being used for the year it belongs to. "
  "Output written to files contains, for each year, the same values (to the printed precision) as the results obtained as a dictionary from the same run, under the requested folder and prefix, for both thermal models and with or without carbon cycle outputs.",
  ["inputs", "configurations"],
  "all combinations of inputs given as file or data, year windows, run modes, output prefixes and folders",
  "One test mixes one fixed set of files and data and compares file sizes or single columns.",
  [IH, "ciceroscm.py", CE],
  [("reading", IH + ":get_data, read_inputfile, read_forc, read_data_on_year_row, read_natural_emissions"), ("writing", "ciceroscm.py:write_data_to_file"), ("writing", CE + ":write_output_to_files")],
  ["results of paired runs", "output files"])

p("C14", "Solar, volcanic and land use input act in the right year and only when asked",
  "With solar and volcanic forcing switched on, each year's user or default series is used for exactly that year: solar adds equally to both hemispheres, volcanic columns (any number per year, common or separate per hemisphere) act in their part of the year, and both are reported as used. "
  "Switched off, solar and volcanic forcing are zero even if files or data are given, and land use forcing is always the given or default series of that year.",
  ["inputs", "configurations"],
  "all year windows, numbers of columns, file or data, hemispheric or common series, run modes and thermal models",
  "Tests use the default files from 1750 with monthly columns only.",
  [IH, "ciceroscm.py", UDM, TL],
  [("defaults", IH + ":set_sun_volc_luc_defaults"), ("reading", IH + ":read_data_on_year_row"), ("use", "ciceroscm.py:_run, forc_set, add_year_data_to_output")],
  ["Solar_forcing, Volcanic_forcing_* and LANDUSE series", "arguments of the yearly thermal step"])

p("C15", "Perturbations are applied exactly once to the named component and year",
  "An emission perturbation run equals a run with those amounts added to the emission input, and a forcing perturbation adds exactly its amount to that component, to total forcing and to the hemispheres with the component's weights in exactly that year, for interacting and precalculated components alike. "
  "Several perturbations of the same component and year add up, their order does not matter, and repeated runs do not accumulate them.",
  ["inputs", "histories", "configurations"],
  "all sets of perturbations (components, years, duplicates, signs, order), run modes and rerun histories",
  "Tests use two fixed perturbation files with a single component each.",
  ["perturbations.py", CE],
  [("emissions", "perturbations.py:perturb_emissions"), ("forcing", "perturbations.py:ForcingPerturbation")],
  ["emissions and forcing tables", "temperature series"])

p("C16", "Parallel runs return every configuration and scenario exactly once",
  "Running a list of scenarios over a list of configurations returns for each scenario, configuration and available variable exactly one series, equal to what a single run of that configuration in that scenario gives, for any number of workers, any batching and any order or mixture of configurations. "
  "Results come in the order of scenarios and configurations, and a failing member makes the call fail instead of silently dropping results.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all worker counts, numbers and orders of scenarios and configurations, heterogeneous parameter sets, completion orders of workers and failing members",
  "Tests use two or three fixed worker/scenario/configuration counts with one parameter set and check only a few values.",
  ["parallel/cscmparwrapper.py", "parallel/_parallel_process.py", "parallel/distributionrun.py"],
  [("batching", "parallel/cscmparwrapper.py:run_ciceroscm_parallel"), ("collection", "parallel/_parallel_process.py"), ("isolation of configurations", "parallel/cscmparwrapper.py:run_over_cfgs")],
  ["returned table of series"])

p("C17", "Parameter distributions yield complete, bounded, correctly routed samples",
  "Every generated set of configurations has exactly the requested number of members with unique indices, every member contains each sampled parameter in the parameter group that consumes it and each set value unchanged, latin hypercube samples cover each parameter's interval (the documented default prior and set values when none are given) with exactly one sample per stratum and gaussian samples have the interval as one standard deviation. "
  "Chunking only splits the same number of members, forcing distributions contain only thermal parameters, and configurations (with any meta information) survive writing to and reading from JSON unchanged.",
  ["inputs", "configurations"],
  "all priors, set values, options, sample counts, chunk sizes, index prefixes and meta information",
  "Tests check shapes of a few fixed distributions.",
  ["parallel/_configdistro.py", "parallel/distributionrun.py"],
  [("sampling", "parallel/_configdistro.py:get_samples_from_distro_latin, get_samples_from_distro_gaussian"), ("routing and chunking", "parallel/_configdistro.py:make_config_lists, make_single_config_list"), ("JSON", "parallel/distributionrun.py")],
  ["returned configuration lists", "JSON files"])

p("C18", "Reported standard variables equal the model results in the stated units",
  "For every run each standard variable (temperatures, heat uptake and content, concentrations, emissions, component forcings, carbon fluxes and pools) is exactly the corresponding model series for the same years converted to the unit reported with it, and concentration and emission units are those of the gas table given as file or data. "
  "Aggregates are the sums of their parts: aerosols and aerosol totals including regional components, fluorinated gases, greenhouse gases, total forcing with solar and volcanic, carbon pools as cumulated fluxes and net flux as the negative sum of land and ocean flux; variables that are not available are reported as such rather than as numbers.",
  ["inputs", "configurations"],
  "all variables x runs (emission, concentration, forcing; both thermal and carbon models; with and without carbon outputs; different gas tables)",
  "Tests ask for a few variables in two scenarios and check units or signs.",
  ["formattingtools/reformat_cscm_results.py", "formattingtools/reformat_inputdata_to_cscm_format.py"],
  [("reader", "formattingtools/reformat_cscm_results.py:CSCMREADER"), ("units", "formattingtools/reformat_inputdata_to_cscm_format.py:COMMONSFILEWRITER")],
  ["returned years, series and unit per variable"])

p("C19", "User parameters are honoured, others default, and none leak",
  "In every parameter group each valid numeric value the user gives is the value used in that run, a missing or non-numeric one is replaced by the documented default (in the carbon cycle group of a reused instance: keeps the value given last), unknown ones are ignored, and structural settings of an instance (years, emission start, sub-steps, concentration mode) cannot be changed by a later run. "
  "Decay functions of the carbon cycle given as dictionaries or as numbered parameters, in the configuration or the carbon parameter set, are equivalent and normalised as documented, and the defaults themselves never change during the life of the process.",
  ["inputs", "histories", "configurations"],
  "all subsets of parameters, numeric types, invalid types, unknown names, numbered parameters in any order, sequences of runs",
  "Tests check one or two parameters per group at fixed values and types.",
  ["_utils.py", CE, CC, "carbon_cycle/rfuns.py", "thermal_model/abstract_thermal_model.py", "ciceroscm.py"],
  [("check and cut", "_utils.py:cut_and_check_pamset, update_pam_if_numeric"), ("consistency", CE + ":check_pamset, check_pamset_consistency"), ("numbered parameters", "carbon_cycle/rfuns.py:_process_flat_carbon_parameters")],
  ["results of paired runs", "defaults before and after"])

p("C20", "Inconsistent input is rejected instead of giving silent wrong results",
  "Missing input files, emission or concentration files whose units disagree with the gas table for any gas, unknown thermal or carbon cycle models, malformed decay functions (length mismatch, negative coefficients, timescales that are not positive) and malformed configuration files are always reported as errors of the documented kind and leave the instance as it was, while valid input in any column order is accepted. "
  "Chlorine and bromine atoms are counted correctly from the name of any (hydro)chlorofluorocarbon, halon or chlorinated/brominated compound, and regional aerosol gas tables contain each aerosol-region pair with that region's converted efficiency and leave other rows unchanged.",
  ["inputs", "configurations"],
  "all positions of a defect in the input (any file key, any gas, any model name, any decay function entry), all systematic compound names and region maps",
  "Tests try one wrong file and one wrong unit and a few compound names.",
  [IH, "component_factory_functions.py", "pub_utils.py", "carbon_cycle/rfuns.py", "parallel/distributionrun.py"],
  [("file and unit checks", IH + ":check_inputfiles, _check_gaspam_compatibility"), ("factories", "component_factory_functions.py"), ("decay checks", "pub_utils.py:_check_array_consistency"), ("names", "pub_utils.py:find_num_cl_in_hcfc, make_cl_and_br_dictionaries, make_regional_aerosol_gaspamdata")],
  ["exceptions raised", "returned dictionaries and tables"])

p("C21", "Plots show exactly what the run computed and change nothing",
  "For every run with plotting switched on (emission, concentration or forcing driven, any thermal and carbon model, any number of gases) each emitted component, each component with a concentration, and each forcing component that is not a mere precursor, the total included, is drawn exactly once under its own name with the years, values and unit of that run, and the thermal series are drawn under their labels, in files placed in the plots folder of the output. "
  "Plotting never fails for a run that succeeds without it, does not change any other output, and figures of one run never contain data of another.",
  ["inputs", "configurations", "histories"],
  "all run modes, thermal models, gas tables and numbers of components, output folders, repeated runs of one process",
  "The only test checks that files of those names exist for one run.",
  ["make_plots.py", CE, "ciceroscm.py"],
  [("thermal figures", "make_plots.py:plot_output1"), ("component figures", "make_plots.py:plot_output2"), ("call", CE + ":write_output_to_files")],
  ["lines, titles and labels of saved figures", "output files"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), max(s["statement"].count(". ") for s in P))

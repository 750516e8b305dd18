import json
S='src/ciceroscm/'
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    a["observe_at"]=obs or ["CICEROSCM(cfg)._run(...) and .results"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
CE='concentrations_emissions_handler.py'
p("C01","A run's results do not depend on the runs made before it on the instance",
 "The results of a run are determined by the inputs the instance was created with, the parameters given to that run, and the carbon cycle parameters last set on the instance; earlier runs have no other influence, whatever their parameters, options or outcome. Carbon cycle parameters stay as last set until set again, all other parameters fall back to their defaults when a run leaves them out. Results of an earlier run that the current run does not produce are no longer there afterwards.",
 ["histories","configurations"],"all finite sequences of runs on an instance, with any parameters and options in each, ending in any run",
 "Tests make one or two runs per instance; a leak needs a particular parameter or option in an earlier run and its absence in a later one.",
 ["ciceroscm.py",CE,"carbon_cycle/carbon_cycle_mod.py","carbon_cycle/carbon_cycle_abstract.py","thermal_model/abstract_thermal_model.py"],
 [("reset for a new run",CE+": reset_with_new_pams, check_pamset_consistency"),("carbon state reset","carbon_cycle/carbon_cycle_mod.py: reset_co2_hold"),("output arrays","ciceroscm.py: initialise_output_arrays"),("new thermal model for each run","ciceroscm.py: _run")],
 [("carbon cycle parameters","persist per instance","carbon_cycle/carbon_cycle_mod.py: pamset"),("carbon cycle state","must restart with every run","carbon_cycle/carbon_cycle_mod.py: co2_hold"),("run parameters","resolved anew for every run",CE+": pamset")])
p("C02","Runs leave the caller's data alone and instances do not affect each other",
 "Creating an instance or running it changes none of the data tables, arrays or coefficient lists the caller handed in, and no parameter value the caller put in a dictionary. Any number of instances can be created and run in any interleaving, sharing input objects or not, and each gives what it gives alone.",
 ["histories","schedules"],"all interleavings of creations and runs of several instances with shared or separate input objects and parameter dictionaries",
 "Tests use each input object once and compare outputs, not the inputs afterwards; cross-talk through shared tables or class level defaults needs two instances and a particular order.",
 [CE,"ciceroscm.py","_utils.py","input_handler.py","perturbations.py","carbon_cycle/common_carbon_cycle_functions.py"],
 [("copies of the inputs",CE+": __init__"),("parameters are cut into a new dictionary","_utils.py: cut_non_required"),("perturbations on the own copy","perturbations.py: perturb_emissions")])
p("C03","Every parameter takes its given value, or else its documented default",
 "A numeric value given for a known parameter of the thermal model, the carbon cycle or the forcing calculation is the value the run uses, for any numeric type; a missing or non-numeric value means the documented default (for carbon cycle parameters of a later run: the value in force), and giving the default explicitly is the same as leaving it out. Names no component knows have no effect. First and last year, emission start, carbon time step and the concentration-driven switch belong to the instance and cannot be changed by a run.",
 ["inputs","configurations"],"all parameter sets: any subset of the known names, numeric and non-numeric values, unknown names",
 "There are over forty parameters in four components; tests vary a handful of them, one at a time, and mostly look at whether anything changes.",
 ["_utils.py",CE,"thermal_model/abstract_thermal_model.py","thermal_model/upwelling_diffusion_model.py","thermal_model/two_layer_ocean.py","carbon_cycle/carbon_cycle_mod.py","carbon_cycle/carbon_cycle_mod_box.py","carbon_cycle/rfuns.py"],
 [("defaults and cutting","_utils.py: cut_and_check_pamset, check_numeric_pamset"),("update if numeric","_utils.py: update_pam_if_numeric"),("fixed parameters",CE+": check_pamset_consistency")])
p("C04","Concentrations follow prescribed data, then the one-box emission balance",
 "In a concentration-driven run, and in every year before emissions start, the concentration of each gas other than CO2 is the prescribed one of that year. From the emission start on it is the solution after one year of a single-box balance with the gas's conversion factor and lifetime, driven by the year's emissions (with any emission perturbation) plus natural emissions and starting from the previous year's concentration; for CH4 the loss rate follows the chosen lifetime mode plus the two further sinks, and CH4 and N2O use the yearly natural emissions. This holds whatever the relation of the emission start to the first and last year, and the years are never shifted.",
 ["inputs","configurations"],"all scenarios, gas parameter tables, year windows, emission starts, lifetime modes and perturbations",
 "Tests compare one scenario with a stored result; window edges, other lifetime modes, natural emission series and gas tables are not reached.",
 [CE,"input_handler.py"],
 [("emissions to concentrations",CE+": emi2conc, methane_lifetime"),("precalculated gases",CE+": _precalculate_concentrations_vanilla_gases"),("prescribed rows",CE+": fill_one_row_conc")],
 [("concentration of each gas and year","carries over from year to year",CE+": conc, precalc_dict")],
 ["results['concentrations'], results['emissions']"])
p("C05","Total and hemispheric forcing are the exact sums of the components",
 "Every year the reported total forcing is the sum of all reported component forcings, perturbations included and each counted once. The forcing that reaches each hemisphere of the thermal model is the sum of the components with the hemispheric share of each (aerosols 1.47/0.53, tropospheric ozone 1.45/0.55, land use 1.42/0.58, all others equal) plus the solar forcing on both, so that the two hemispheres average to total plus solar. When a run asks for a single component, only that component (with its own hemispheric share) and solar and volcanic forcing act.",
 ["inputs","configurations"],"all scenarios, parameters, perturbations and single-component choices, every year",
 "Tests compare totals of a reference scenario in which most components are small or have default factors; hemispheric sums are never observed on their own.",
 [CE,"perturbations.py","ciceroscm.py"],
 [("sum over components",CE+": conc2forc"),("hemispheric split","perturbations.py: calculate_hemispheric_forcing"),("precalculated sum",CE+": _precalculate_vanilla_gases")],
 None,["results['forcing'], results['Total_forcing'], dT_NH / dT_SH"])
p("C06","Each component's forcing follows its formula relative to the first year",
 "The forcing of CO2, CH4 and N2O follows the overlap formulas in their concentrations relative to the first year of the run; other gases are linear in their concentration change; aerosols and precursors are linear in the change of their own (or reference) emissions with the table's factor or, where that is zero, the run's parameter; stratospheric water vapour follows methane forcing, tropospheric ozone methane and precursor emissions relative to the reference year, and stratospheric ozone the chlorine and bromine loading three years earlier. Each is scaled with the gas table's adjustment factor where it has one, and land use is the land use series. Without perturbations all forcings are zero in the first year except land use.",
 ["inputs","configurations"],"all scenarios, gas tables and forcing parameters, every component and year",
 "Tests check a few formulas at single values; signs, reference years, the chlorine and bromine counts and the interplay of table and parameters vary over inputs.",
 [CE,"pub_utils.py"],
 [("three main gases",CE+": calculate_forc_three_main"),("ozone",CE+": tropospheric_ozone_forcing, _add_precalculated_strat_o3"),("aerosols",CE+": calc_aerosol_forcing"),("halogen counts","pub_utils.py: make_cl_and_br_dictionaries")],
 None,["results['forcing'], results['concentrations']"])
p("C07","Perturbations add exactly their amount, in their year and component only",
 "An emission perturbation adds its amount to the named component's emissions in the named year (CO2 to the fossil part) and nothing else in the inputs changes; several for the same component and year add up, in any order. A forcing perturbation adds its amount once to the named component in the named year, and thereby to the total and the hemispheres with that component's share, also for components with no other forcing; years outside the run have no effect. A perturbation of zero, or two that cancel, changes nothing.",
 ["inputs","configurations"],"all perturbation tables: any components, years, duplicates, orders and amounts, given as file or data",
 "Tests perturb one or two components in one scenario.",
 ["perturbations.py",CE,"input_handler.py"],
 [("emissions","perturbations.py: perturb_emissions"),("forcing","perturbations.py: ForcingPerturbation.add_forcing_pert, add_forcing_pert_for_vanilla")])
p("C08","Results up to a year do not depend on anything after that year",
 "Two runs whose inputs agree up to some year, and that otherwise differ only in later inputs or in the last year of the run, give the same emissions, concentrations, forcings, temperatures, heat contents and carbon fluxes up to that year (reference years used by the chemistry held equal). The effect of a change in a year's input appears in that year or later, never before.",
 ["inputs","configurations"],"all pairs of scenarios that agree up to a year, all horizons",
 "Needs pairs of runs; tests look at single runs.",
 ["ciceroscm.py",CE,"carbon_cycle/carbon_cycle_mod.py","thermal_model/upwelling_diffusion_model.py","input_handler.py"],
 [("year loop","ciceroscm.py: _run"),("indexing by sub-year step","carbon_cycle/carbon_cycle_mod.py: co2em2conc")])
p("C09","The box carbon cycle conserves carbon and follows its pool balance",
 "With the box carbon cycle, in every year the carbon added to atmosphere, vegetation, soil, mixed layer and deep ocean equals the emitted carbon exactly, for any parameters, emissions and temperatures. Each flux follows its law (net primary production from CO2 and last year's temperature and never negative, litter, respiration, ocean uptake by solubility, exchange with the deep ocean) and the reported concentrations and fluxes are those of this balance.",
 ["inputs","histories"],"all emission series (also negative), parameters and temperatures, every year",
 "Conservation is a sum over hidden pools over whole runs; tests look at the last concentration of one scenario.",
 ["carbon_cycle/carbon_cycle_mod_box.py","carbon_cycle/carbon_cycle_abstract.py"],
 [("pool update","carbon_cycle/carbon_cycle_mod_box.py: co2em2conc"),("fluxes","carbon_cycle/carbon_cycle_mod_box.py: calculate_npp, calculate_ocean_uptake")],
 [("five carbon pools","state of the box model","carbon_cycle/carbon_cycle_mod_box.py: reset_co2_hold")],
 ["results['concentrations']['CO2'], results['carbon cycle']"])
p("C10","CO2 follows the pulse-response carbon cycle for any parameters and history",
 "With the default carbon cycle, CO2 in every year is what the ocean mixed layer pulse response and the land biosphere decay response give for the emissions so far and the temperature of the previous year, with the given temperature feedback parameters, number of sub-year steps and preindustrial concentration. Response functions given as coefficient and timescale lists, or as numbered single parameters in any order, mean the same function, normalised (ocean to 1 at time zero, land to unit integral); without emissions and with zero forcing CO2 stays at its preindustrial value.",
 ["inputs","histories","configurations"],"all emission series including negative and very large, temperatures, parameters, response functions, steps per year and horizons",
 "Tests compare one scenario with stored numbers; the convolution over the whole history, high-carbon extrapolation and custom functions are sampled at single points.",
 ["carbon_cycle/carbon_cycle_mod.py","carbon_cycle/rfuns.py","carbon_cycle/carbon_cycle_abstract.py","pub_utils.py"],
 [("sub-year loop","carbon_cycle/carbon_cycle_mod.py: co2em2conc"),("mixed layer chemistry","carbon_cycle/carbon_cycle_mod.py: _calculate_partial_pressure_mixed_layer"),("response functions","carbon_cycle/rfuns.py"),("temperature feedbacks","carbon_cycle/carbon_cycle_mod.py: fnpp_from_temp, mixed_layer_temp_feedback, solubility_temp_feedback")],
 [("air-sea flux and production history","whole history enters every step","carbon_cycle/carbon_cycle_mod.py: co2_hold")],
 ["results['concentrations']['CO2']"])
p("C11","Back-calculated emissions reproduce the CO2 path; carbon outputs are consistent",
 "In a concentration-driven run the reported CO2 emissions, put through the same carbon cycle with the same temperatures, give back the prescribed CO2 concentrations, and asking for them does not change any other result. Reported land and ocean carbon fluxes are the yearly means of the fluxes in the carbon cycle, the airborne fraction is the atmospheric increase over cumulative emissions, and the feedback outputs are those of the temperatures of the run; they appear if and only if asked for.",
 ["inputs","histories"],"all concentration paths the bisection bracket covers, parameters, response functions, and all emission-driven runs",
 "Tests check a few years of one path with loose tolerances and not the fluxes.",
 ["carbon_cycle/carbon_cycle_abstract.py","carbon_cycle/carbon_cycle_mod.py","carbon_cycle/common_carbon_cycle_functions.py",CE],
 [("bisection","carbon_cycle/carbon_cycle_abstract.py: back_calculate_emissions, _guess_emissions_iteration"),("fluxes","carbon_cycle/carbon_cycle_mod.py: get_biosphere_carbon_flux, get_ocean_carbon_flux"),("airborne fraction","carbon_cycle/common_carbon_cycle_functions.py: calculate_airborne_fraction")],
 None,["results['carbon cycle']"])
p("C12","The two-layer thermal model conserves energy",
 "With the two-layer model, in every year the heat gained by the two layers equals the radiative imbalance that year's forcing and temperatures leave (with the efficacy of deep heat uptake accounted for), for any forcing, volcanic series and parameters. Temperatures, imbalance and heat contents (total, per layer, upper 700 m for any layer depths) reported are those of this balance, and volcanic forcing enters as the mean of the hemispheres and of the months.",
 ["inputs","histories"],"all forcing histories and parameters, every year",
 "Energy balance is a relation between consecutive years over whole runs.",
 ["thermal_model/two_layer_ocean.py","thermal_model/abstract_thermal_model.py"],
 [("step","thermal_model/two_layer_ocean.py: energy_budget")],
 [("layer temperatures","state of the model","thermal_model/two_layer_ocean.py: temp_fast, temp_slow")],
 ["results: dT_*, RIB_glob, OHC*"])
p("C13","The upwelling-diffusion ocean follows its implicit energy balance",
 "With the upwelling-diffusion model the hemispheric air, sea and blended temperatures, radiative imbalances and heat contents of every year are the solution of the implicit upwelling-diffusion balance for all layers and sub-year steps, with forcing moving linearly between years, volcanic forcing by step, polar sinking, inter-hemispheric exchange and warming-dependent upwelling, for any parameters, layer and step numbers. No forcing gives no change at all, equal hemispheres give equal responses, and without warming-dependent upwelling the response is linear in the forcing.",
 ["inputs","histories"],"all forcing and volcanic histories, all thermal parameters including number of layers and steps",
 "Tests compare a few series at default parameters with stored numbers; the matrix has separate edge cases for each layer position and parameter switch.",
 ["thermal_model/upwelling_diffusion_model.py"],
 [("coefficients","thermal_model/upwelling_diffusion_model.py: setup_ebud, setup_ebud2"),("tridiagonal solution and step","thermal_model/upwelling_diffusion_model.py: energy_budget, coeff, _band"),("heat content","thermal_model/upwelling_diffusion_model.py: ocean_temperature")],
 [("layer temperatures of both hemispheres","state of the model","thermal_model/upwelling_diffusion_model.py: tn, ts")],
 ["results: dT_*, RIB_*, OHC*"])
p("C14","The feedback parameter follows the aerosol share of the forcing, year by year",
 "In each year the thermal model uses its base feedback plus the pattern sensitivity times that year's aerosol share, the share being the sum of the magnitudes of aerosol component forcings over that of all individually tracked components, perturbations included in both, between 0 and 1 and zero when there is no forcing. With zero sensitivity the share has no effect at all; no year's share influences the feedback of another year; both thermal models and both kinds of runs (component forcing and emissions or concentrations) follow the same rule.",
 ["inputs","histories"],"all runs with any pattern sensitivity, forcing composition and thermal model, every year",
 "The share changes every year and its effect is a small change in the response; tests look at signs of the difference for one scenario.",
 [CE,"input_handler.py","ciceroscm.py","thermal_model/upwelling_diffusion_model.py","thermal_model/two_layer_ocean.py"],
 [("aerosol share",CE+": conc2forc"),("share from forcing files","input_handler.py: read_forc"),("feedback update","thermal_model/upwelling_diffusion_model.py, two_layer_ocean.py: set_feedback_gregory")])
p("C15","Each year couples carbon, forcing and temperature in the right order",
 "In every year concentrations are found from that year's emissions and the previous year's temperature (none in the first year), forcing from that year's concentrations and emissions, and temperature from that year's hemispheric, solar and volcanic forcing, each exactly once per year; all results of a year are reported at that year's position, and total, solar and volcanic forcing series are those that were used.",
 ["inputs","histories","configurations"],"all run types, thermal and carbon models, year windows, every year",
 "An off-by-one year or a feedback from the wrong year is a small shift; stored reference runs cover one window and configuration.",
 ["ciceroscm.py",CE,"component_factory_functions.py"],
 [("year loop","ciceroscm.py: _run, add_year_data_to_output, forc_set"),("model choice","component_factory_functions.py")])
p("C16","Parallel and distributed runs give exactly the serial results, all of them once",
 "For any scenarios, configurations, output variables and number of workers, the combined result has exactly one row for each scenario, configuration and available variable, holding the values and unit a single fresh run of that scenario and configuration gives. How configurations are split over workers and batches, their order, and what else is run alongside has no influence.",
 ["schedules","configurations"],"all numbers of scenarios, configurations and workers, all batchings and completion orders",
 "Tests run two or three combinations; loss, duplication or cross-talk needs particular counts and orders.",
 ["parallel/cscmparwrapper.py","parallel/distributionrun.py","parallel/_parallel_process.py"],
 [("batching","parallel/cscmparwrapper.py: run_ciceroscm_parallel"),("fresh state for each configuration","parallel/cscmparwrapper.py: CSCMParWrapper.run_over_cfgs")],
 None,["run_ciceroscm_parallel, DistributionRun.run_over_distribution"])
p("C17","Job processing returns every result in order and surfaces failures",
 "Processing a list of jobs calls the function exactly once for each, with its own arguments, and returns the results in the order of the jobs, for any split into serial front, parallel front and rest, any pool or none, and any completion order. If a job fails its exception reaches the caller rather than a partial or misaligned result.",
 ["schedules","fault_sequences"],"all job counts, front sizes, pools, argument styles, completion orders and failing jobs",
 "Tests use one or two sizes with jobs of equal duration; order errors need particular completion orders.",
 ["parallel/_parallel_process.py"],
 [("splitting","parallel/_parallel_process.py: _parallel_process"),("collection in order","parallel/_parallel_process.py: _run_parallel, _run_serial")],
 None,["_parallel_process return value and call log"])
p("C18","Sampled configurations are complete, routed and reproducible from file",
 "Every configuration made from a distribution has every distributed parameter not fixed otherwise exactly once, within its interval for latin hypercube sampling with one sample in each stratum, every fixed parameter with its fixed value, and each in the parameter set of the component that uses it. Chunks together hold the requested number of configurations, each of at most the chunk size, with distinct identifiers; written to file and read back, configurations and meta information are the same.",
 ["inputs","configurations"],"all distributions, fixed values, options, sample counts, chunk sizes and meta information",
 "Tests sample a few counts with the default distribution; sizes that do not divide and unusual parameter names are not reached.",
 ["parallel/_configdistro.py","parallel/distributionrun.py"],
 [("sampling and routing","parallel/_configdistro.py: make_config_lists, make_single_config_list, _set_pamsets_start"),("file round trip","parallel/distributionrun.py: write_configs_to_json, __init__")],
 None,["_ConfigDistro.make_config_lists, DistributionRun"])
p("C19","Output variables carry the right series, unit and sum for their name",
 "Each named output variable returns the model's series for that quantity over exactly the years of the run, in the stated unit (heat content and uptake converted to zettajoule), with aggregate forcings equal to the sum of all their members present in the run, effective forcing including solar and mean volcanic forcing, and carbon pools the running sums of fluxes. Variables that are not available yield no data and no row rather than another variable's values.",
 ["inputs","configurations"],"all variable names, thermal and carbon models, scenarios, gas tables and year windows",
 "There are over a hundred variable names; tests look at a few.",
 ["formattingtools/reformat_cscm_results.py","formattingtools/reformat_inputdata_to_cscm_format.py"],
 [("name mapping and units","formattingtools/reformat_cscm_results.py: CSCMREADER.get_variable_timeseries"),("sums","formattingtools/reformat_cscm_results.py: get_data_from_forc_common"),("units of gases","formattingtools/reformat_inputdata_to_cscm_format.py: COMMONSFILEWRITER")],
 None,["CSCMREADER.get_variable_timeseries"])
p("C20","Output files hold the same numbers as the results in memory",
 "A run that writes files produces, in the chosen folder and with the chosen prefix, files for temperatures, heat content, radiative imbalance, solar and volcanic forcing, forcing and (unless forcing-driven) emissions, concentrations and, if asked for, the carbon cycle, with one row per year and the columns and values the same run returns in memory, to the printed precision. Both ways of getting results leave the same thermal results on the instance.",
 ["inputs","configurations"],"all run types, thermal and carbon models, output options, and histories mixing both kinds of output",
 "Tests check existence and a few columns of files of the default model.",
 ["ciceroscm.py",CE],
 [("thermal files","ciceroscm.py: write_data_to_file"),("emission, concentration, forcing and carbon files",CE+": write_output_to_files, add_results_to_dict")],
 None,["files in output_folder"])
p("C21","The same input given as file or as data, or by default, gives the same results",
 "Emissions, concentrations, gas parameters, natural emissions, land use, solar, volcanic, forcing and perturbation inputs give the same results whether given as a file or as the data in it. Data are used for the year they belong to for any first and last year of the run, also where the source starts earlier or ends later; solar and volcanic forcing are zero unless switched on, missing natural emissions mean the gas table's constant, and a single volcanic input serves both hemispheres.",
 ["inputs","configurations"],"all combinations of input forms and year windows",
 "There are over a dozen inputs with two forms each and alignment depends on the window; tests use mostly one form and window.",
 ["input_handler.py","ciceroscm.py",CE],
 [("reading","input_handler.py: InputHandler.get_data, read_data_on_year_row, read_inputfile, read_natural_emissions"),("defaults","input_handler.py: set_sun_volc_luc_defaults, get_flat_natural_emissions")])
p("C22","Forcing-driven runs use exactly the forcing given, in every format",
 "A run driven by forcing uses, in each year, the given total for both hemispheres, or the given hemispheric values with their mean as total, or the sum of the given components, plus solar and volcanic forcing; the reported total is that forcing including solar. Years are matched for tables with years and counted from the first year for plain lists.",
 ["inputs","configurations"],"all forcing formats, column sets, year windows, solar and volcanic options and thermal models",
 "Tests use a few small files at the default window.",
 ["input_handler.py","ciceroscm.py"],
 [("reading","input_handler.py: read_forc"),("forcing of the year","ciceroscm.py: forc_set")])
p("C23","Regional aerosols act with their own factors, without double counting",
 "Adding regional aerosols to a gas table keeps all existing rows and adds one row per aerosol and region with that region's forcing factor in the model's units. In a run each regional aerosol's forcing is its factor times the change of its own emissions, the direct forcing of the global total of a regionalised aerosol is zero whatever its parameter, and aerosols without regions and the indirect effect are unaffected; this holds in every run of an instance.",
 ["inputs","configurations","histories"],"all regional factor tables, region mappings, subsets of aerosols and run sequences",
 "Tests build one table and check a few values of one run.",
 ["pub_utils.py",CE],
 [("gas table","pub_utils.py: make_regional_aerosol_gaspamdata"),("no double counting",CE+": avoid_regional_double_counting, calc_aerosol_forcing")])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))

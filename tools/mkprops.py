"""writes properties.jsonl"""
import json, os
B="src/openscm_twolayermodel/base.py"; T="src/openscm_twolayermodel/two_layer_model.py"
I="src/openscm_twolayermodel/impulse_response_model.py"; U="src/openscm_twolayermodel/utils.py"
K="src/openscm_twolayermodel/constants.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
p("C01","Two-layer temperatures follow the documented energy balance",
 "In every time step of TwoLayerModel the upper layer changes by delta_t * (erf - (lambda0 - a*T_upper)*T_upper - efficacy*eta*(T_upper - T_lower)) / C_upper and the lower layer by delta_t * eta*(T_upper - T_lower) / C_lower, everything on the right taken at the start of the step. C_upper and C_lower are du and dl times 1000 kg/m^3 times 4181 J/delta_degC/kg. This holds for every parameter value, every forcing series and every position in a run.",
 ["inputs","histories"],"all real parameter values (du, dl, delta_t > 0), all states, all forcing values, every time step of a run of any length",
 "unit tests evaluate the step functions at one point each; a slip that needs a sign, a coincidence of values or a late step to show is not reached",
 [T,K],[("TwoLayerModel._calculate_next_temp_upper/_lower",T),("TwoLayerModel._step",T)],
 [("_temp_upper_mag, _temp_lower_mag","layer temperatures",T)],["model state after run()","run_scenarios output"])
p("C02","Two-layer heat uptake closes the energy budget",
 "In every time step the heat uptake TwoLayerModel reports equals the rate at which the heat content of its two layers changes, and equals erf - (lambda0 - a*T_upper)*T_upper - (efficacy - 1)*eta*(T_upper - T_lower) at the start of the step. Summed over a run times delta_t it equals C_upper*T_upper + C_lower*T_lower at the end: no energy is created or lost.",
 ["inputs","histories"],"all parameter values, forcing series and time steps",
 "tests check the formula at a point; closure of the whole budget over a run for all parameters is never asserted",
 [T],[("TwoLayerModel._calculate_next_rndt",T)],[("_rndt_mag","heat uptake",T)],["Heat Uptake in the output"])
p("C03","Impulse response boxes relax exactly to their equilibria",
 "In every time step each box i of ImpulseResponseModel goes from T_i to T_i*exp(-delta_t/d_i) + q_i*erf*(1 - exp(-delta_t/d_i)), with its own q_i and d_i and erf at the start of the step. Therefore, with the forcing held fixed, n steps of delta_t/n give the same temperatures as one step of delta_t, and the efficacy has no influence on temperatures.",
 ["inputs","histories"],"all q1, q2, d1 < d2, delta_t > 0, states and forcings; every position in a run",
 "tests compare one evaluation with the same formula; step-splitting invariance and independence of efficacy are never tested",
 [I],[("ImpulseResponseModel._calculate_next_temp",I),("ImpulseResponseModel._step",I)],[("_temp1_mag, _temp2_mag","box temperatures",I)],["model state after run()"])
p("C04","Impulse response heat uptake is that of the equivalent two-layer model",
 "In every time step ImpulseResponseModel's heat uptake equals erf - lambda0*(T_1 + T_2) - (efficacy - 1)*eta*((T_1 + T_2) - T_deep) at the start of the step, where lambda0, eta and the deep temperature T_deep = phi_1*T_1 + phi_2*T_2 are those of the equivalent two-layer model (get_two_layer_parameters). It never fails for valid parameters, whatever their units, and is continuous at efficacy = 1.",
 ["inputs","configurations"],"all q1, q2 > 0, 0 < d1 < d2, efficacy > 0, all states and forcings, all units of the parameters",
 "the existing test compares with the same helper functions at one point in one choice of units",
 [I,B],[("ImpulseResponseModel._calculate_next_rndt",I),("_calculate_geoffroy_helper_parameters",B)],[("_rndt_mag","heat uptake",I)],["Heat Uptake in the output"])
p("C05","Two-layer to impulse response conversion preserves the dynamics",
 "For every two-layer model with a = 0 and positive parameters, get_impulse_response_parameters returns positive d1 < d2, q1 and q2 and the unchanged efficacy, accepted by ImpulseResponseModel, such that 1/d1 and 1/d2 are the decay rates of the two-layer equations and q1, q2 give the same temperature response: q1 + q2 = 1/lambda0, q1/d1 + q2/d2 = 1/C_upper, and the same second derivative.",
 ["inputs","configurations"],"all positive du, dl, lambda0, eta, efficacy (a = 0), all units",
 "tests compare three configurations numerically with a wide tolerance; the identities must hold everywhere, including near-degenerate parameter sets",
 [T,B],[("TwoLayerModel.get_impulse_response_parameters",T),("_calculate_geoffroy_helper_parameters",B)],(),["returned parameters"])
p("C06","Conversions between the two models are mutual inverses",
 "Converting a two-layer model (a = 0, positive parameters) to impulse response parameters and back returns the original du, dl, lambda0, eta and efficacy; converting an impulse response model (positive q1, q2, 0 < d1 < d2) to two-layer parameters and back returns the original q1, q2, d1, d2 and efficacy. Both conversions return positive parameters.",
 ["inputs","configurations"],"all positive parameter values in their domain, all units",
 "existing round trip tests use a few parameter sets",
 [T,I,B],[("get_impulse_response_parameters",T),("get_two_layer_parameters",I)],(),["returned parameters"])
p("C07","State-dependent feedback is never silently dropped",
 "get_impulse_response_parameters raises ValueError for every non-zero a, however small, of either sign and in whatever unit it is expressed, and succeeds for a = 0 in every unit.",
 ["inputs","configurations"],"all real a, all units of a, all other parameters",
 "the test tries one value",[T],[("TwoLayerModel.get_impulse_response_parameters",T)],(),["exception or result"])
p("C08","Outputs start at zero and depend on earlier forcing only",
 "In both models all temperatures and the heat uptake are zero at the first time point, the values at time i depend only on the forcing before i (so two forcing series that agree before i give identical results up to and including i), and the last forcing value has no effect on any output.",
 ["inputs","histories"],"all forcing series and all positions at which two series may first differ, all parameters",
 "tests check the first values of an example; independence is a statement about pairs of runs",
 [T,I],[("_step (index - 1 reads)",T),("_step (index - 1 reads)",I)],(),["model state after run()"])
p("C09","Rest and equilibrium are preserved",
 "With zero forcing both models stay at exactly zero temperature and heat uptake for ever, for any parameters. With constant forcing F, a state in equilibrium (two-layer with a = 0: both layers at F/lambda0; impulse response: T_i = q_i*F) is unchanged by a step and has zero heat uptake; with a != 0 any T with (lambda0 - a*T)*T = F in both layers is unchanged.",
 ["inputs","histories"],"all parameters, forcings and equilibrium states, any number of steps",
 "no test uses an equilibrium state",[T,I],[("_step",T),("_step",I)],(),["model state after step()"])
p("C10","Without state dependence the response is linear in the forcing",
 "For a two-layer model with a = 0 and for every impulse response model, the temperatures and heat uptake driven by x*F + y*G are x times those driven by F plus y times those driven by G, for all forcing series F, G and all factors x, y.",
 ["inputs"],"all pairs of forcing series, all factors, all parameters",
 "a relation between three runs; tests look at single runs",[T,I],[("_step",T),("_step",I)],(),["model state after run()"])
p("C11","Results do not depend on the units inputs are expressed in",
 "Expressing any parameter, the time step or the forcing (passed directly or in a scenario) in a different but equivalent unit changes no result: temperatures in delta_degC, heat uptake in W/m^2 and converted parameters describe the same physical values.",
 ["configurations","inputs"],"every unit of the right dimension for every input (a unit worth any positive factor of the default unit), all values",
 "tests use two or three units at a time for a couple of inputs",
 [B,T,I],[("property setters converting to internal units",T),("property setters",I),("erf and delta_t setters",B)],(),["model state after run()","returned parameters","run_scenarios output"])
p("C12","Invalid inputs are rejected and leave the model untouched",
 "Assigning a value that is not a pint quantity to a parameter, the time step or the forcing raises TypeError, and one with the wrong dimensions raises UnitError; forcing that is not one-dimensional raises AssertionError, ImpulseResponseModel(d1 >= d2) raises ValueError, and reset without drivers raises ModelStateError. After a rejected assignment the model behaves as before it.",
 ["inputs","histories"],"every settable input, every wrong kind of value, any earlier history; all values of d1 >= d2 in any units",
 "tests check the exception type for single examples, not that the model is untouched",
 [B,T,I],[("Model._assert_is_pint_quantity_with_units",B),("set_drivers",B),("ImpulseResponseModel.__init__",I),("_reset",T)],(),["exceptions","later results"])
p("C13","A run depends only on the current parameters and drivers",
 "After set_drivers and reset, the results of run are those of a freshly constructed model with the same parameters, whatever was done with the model before: earlier runs, longer or shorter drivers, partial stepping, failed calls, conversions, or parameters changed in any order.",
 ["histories","inputs"],"every sequence of public operations before the run, all values used in it",
 "tests construct a new model for each case",[T,I,B],[("_reset",T),("_reset",I),("setters refreshing cached magnitudes",T)],
 [("_timestep_idx and the state arrays","run state",T)],["model state after run()"])
p("C14","run is the same as stepping, and reset clears the state",
 "reset discards all results (every temperature and heat uptake is undefined/NaN and as long as the drivers) and run then gives exactly what calling step once per driver value gives, filling every entry; resetting and running again reproduces the same results.",
 ["histories","inputs"],"all drivers and lengths, all parameters, any interleaving of partial stepping and reset",
 "tests run one example",[B,T,I],[("_run",T),("_run",I),("_reset",T)],(),["model state"])
p("C15","Scenarios run together give the same as each one run alone",
 "run_scenarios returns for every scenario exactly the temperatures and heat uptake that the model gives when that scenario is run on its own (with its own time step), independent of the number, order and content of the other scenarios and of earlier uses of the model.",
 ["inputs","histories"],"all scenario sets, orders, values, time axes and units, all parameters",
 "tests run a fixed pair of scenarios",[B],[("TwoLayerVariant.run_scenarios loop",B)],(),["run_scenarios output"])
p("C16","Only the requested driver in the World region is used",
 "run_scenarios uses exactly the time series whose variable is driver_var and whose region is World; adding, changing or removing time series of other variables or regions changes no result, and ValueError is raised exactly if no such time series exists.",
 ["inputs","configurations"],"all values of all other time series, all mixes of regions and variables",
 "tests have one example with two variables",[B],[("driver.filter in run_scenarios",B)],(),["run_scenarios output"])
p("C17","The model time step follows the scenario's time axis",
 "For a scenario with yearly data (each point in the calendar year after the previous one) the run uses a time step of one year, with monthly data (each spacing 28 to 31 days) one month, and with any other time axis NotImplementedError is raised; the time step set on the model before has no influence.",
 ["inputs","configurations"],"all time axes, at day resolution and below; all earlier time steps",
 "tests use one yearly, one monthly and one bad time axis",[B],[("TwoLayerVariant._select_timestep",B)],[("delta_t","time step",B)],["delta_t after run_scenarios","results","exception"])
p("C18","Scenario output is complete and correctly labelled",
 "For every scenario the output contains the driver unchanged and each model variable once, in the documented unit (temperatures in delta_degC, Heat Uptake in W/m^2, for the impulse response model Surface Temperature being the sum of its two boxes), on the scenario's time points and with the values the run produced. Each time series carries all metadata of its scenario, climate_model, and each model parameter's value in a column named with the parameter and the unit it is in.",
 ["inputs","configurations"],"all parameter values and units, all forcings and units, scenario metadata and numbers of scenarios",
 "tests check some labels of one example",[B,T,I],[("run_scenarios",B),("_create_ts",B),("_get_run_output_tss",T),("_get_run_output_tss",I)],(),["run_scenarios output"])
p("C19","Missing values never turn into results",
 "Where a scenario has no data its output has no data, and its other output values are those of the scenario without the missing points; drivers containing NaN given to set_drivers make reset raise ModelStateError, at whatever position the NaN is.",
 ["inputs"],"every pattern of missing values, all other values",
 "tests have no missing values",[B,T,I],[("row.dropna in run_scenarios",B),("_reset",T)],(),["run_scenarios output","exception"])
p("C20","Feedback to climate sensitivity conversion is exact",
 "convert_lambda_to_ecs(lambda, f2x) = -f2x/lambda with the units following from its arguments, f2x defaulting to 3.74 W/m^2; it is its own inverse (for the same f2x), linear in f2x, independent of the units used, and raises TypeError if either argument is not a pint quantity.",
 ["inputs","configurations"],"all non-zero lambda, all f2x, all units",
 "tests check two values",[U],[("convert_lambda_to_ecs",U)],(),["returned quantity"])
p("C21","Stable steps keep temperatures within physical bounds",
 "Both models keep all temperatures between 0 and the largest equilibrium value for forcing between 0 and F_max: for the two-layer model with a = 0 that is F_max/lambda0, provided delta_t*(lambda0 + efficacy*eta) <= C_upper and delta_t*eta <= C_lower; for the impulse response model q_i*F_max for box i with any delta_t. Under the same conditions, larger forcing never gives smaller temperatures.",
 ["inputs","histories"],"all positive parameters within the stability limit, all forcing series, runs of any length (by induction over steps)",
 "an inductive statement over all states",[T,I],[("_calculate_next_temp_upper/_lower",T),("_calculate_next_temp",I)],(),["model state after step()"])
p("C22","Heat capacities always match the layer depths",
 "At any time heat_capacity_upper and heat_capacity_lower equal the current du and dl times 1000 kg/m^3 times 4181 J/delta_degC/kg, cannot be assigned, and a change of du or dl takes effect in the very next step and leaves the other layer alone.",
 ["inputs","histories"],"all depths in all units, all sequences of assignments",
 "tests set each depth once",[T,K],[("du and dl setters",T),("heat_capacity_upper/lower",T)],[("_heat_capacity_upper_mag, _heat_capacity_lower_mag","cached heat capacities",T)],["properties","later steps"])
p("C23","Inputs are never modified and results are not shared",
 "Running a model, converting parameters or running scenarios never changes the quantities, arrays, data frames or ScmRun objects given to it, nor the model's own parameters and drivers (apart from run_scenarios setting the model's time step and drivers).",
 ["inputs","histories"],"all inputs and operations",
 "tests rarely look at inputs after the call",[B,T,I],[("_ensure_scenarios_are_scmrun copy",B),("setters",T)],(),["inputs after the call"])
p("C24","Model instances do not influence each other",
 "Operations on one model instance, of either class, change no result of another, however their operations are interleaved and whatever default parameters, quantities or drivers they share.",
 ["histories","inputs"],"all interleavings of operations on two instances up to the bound, all parameters",
 "tests use one instance at a time",[T,I,B],[("instance attributes only",T),("instance attributes only",I)],(),["model state"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))

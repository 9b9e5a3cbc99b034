# one prop(...) per property; executed by catalog.py
CONS = "pypsa/optimization/constraints.py"
T_OPT = "the optimisation tests compare a handful of solved example networks; they never look at the rows built for other combinations of attributes, periods, snapshots and asset states"

prop("O01", "Dispatch and flow stay within the time-dependent capacity limits",
     "For every network and snapshot selection, the optimisation model bounds the dispatch of each active non-committable one-port, link, store and storage unit and the flow of each active passive branch by its per-unit limits times its nominal capacity: the built capacity if fixed, the capacity variable if extendable. Inactive assets and snapshots outside their lifetime get no bound and no variable, and no other asset is left unbounded.",
     "inputs configurations", "all components, all static and time-dependent attribute combinations, all snapshot and investment-period selections",
     T_OPT, CONS + " pypsa/optimization/variables.py pypsa/optimization/optimize.py pypsa/descriptors.py",
     [("fixed capacity limits", CONS + ": define_operational_constraints_for_non_extendables"),
      ("extendable capacity limits", CONS + ": define_operational_constraints_for_extendables"),
      ("per-unit bounds", "pypsa/descriptors.py: get_bounds_pu, get_switchable_as_dense, get_activity_mask")], observe=["n.model"])
prop("O02", "Unit commitment couples status, transitions and dispatch",
     "For every committable generator and link the model bounds dispatch by minimum and maximum stable load while on and by zero while off, ties start-up and shut-down indicators to changes of status starting from the recorded initial state, and limits dispatch in start-up and shut-down snapshots. This holds for every snapshot selection, including windows that start in the middle of the horizon.",
     "inputs configurations histories", "all committable assets, initial states and snapshot windows", T_OPT, CONS,
     [("commitment rows", CONS + ": define_operational_constraints_for_committables")], observe=["n.model"])
prop("O03", "Minimum up and down times are enforced over every window",
     "A committable asset that starts up stays on for at least its minimum up time and one that shuts down stays off for at least its minimum down time, within the optimised window. Time already spent on or off before the window is credited, so an asset that still owes up or down time at the start keeps its state until it is served.",
     "inputs histories", "all minimum up/down times, prior operation and window lengths", T_OPT, CONS,
     [("windowed start-up and shut-down sums", CONS + ": define_operational_constraints_for_committables")], observe=["n.model"])
prop("O04", "Ramp limits hold between every two consecutive snapshots",
     "Between any two consecutive snapshots the change of dispatch of a ramp-limited generator or link is at most its ramp limit times its nominal capacity (built, extendable or, for committable units, adjusted by start-up and shut-down limits). In a rolling window the first snapshot is limited against the last dispatched value; at the start of the horizon there is no limit.",
     "inputs histories configurations", "all ramp-limited assets and rolling windows", T_OPT, CONS,
     [("ramp rows", CONS + ": define_ramp_limit_constraints")], observe=["n.model"])
prop("O05", "Capacity variables respect their bounds, fixed values and module sizes",
     "Each active extendable component has exactly one capacity variable bounded below and above by its minimum and maximum capacity, fixed to its set value where one is given, and equal to an integer number of modules where a module size is given.",
     "inputs configurations", "all extendable components and bound combinations", T_OPT, CONS + " pypsa/optimization/variables.py",
     [("capacity bounds", CONS + ": define_nominal_constraints_for_extendables"), ("modularity", CONS + ": define_modular_constraints"),
      ("capacity variables", "pypsa/optimization/variables.py: define_nominal_variables")], observe=["n.model"])
prop("O06", "Storage units conserve energy across snapshots and periods",
     "For every storage unit and snapshot, the state of charge equals the previous one after standing losses plus charging and inflow, minus dispatch and spillage, weighted with efficiencies and elapsed hours. The previous state of the first snapshot is the last one if cyclic and the initial value otherwise, per investment period where the asset asks for it.",
     "inputs configurations histories", "all storage units, cyclic settings, weightings and multi-period horizons", T_OPT, CONS,
     [("energy balance", CONS + ": define_storage_unit_constraints")], observe=["n.model"])
prop("O07", "Stores conserve energy across snapshots and periods",
     "For every store and snapshot the energy level equals the previous level after standing losses minus the energy discharged over the elapsed hours. The previous level of the first snapshot is the last one if cyclic and the initial value otherwise, per investment period where the asset asks for it.",
     "inputs configurations histories", "all stores, cyclic settings, weightings and multi-period horizons", T_OPT, CONS,
     [("energy balance", CONS + ": define_store_constraints")], observe=["n.model"])
prop("O08", "Every bus balances in every snapshot",
     "For every bus and snapshot, signed injections of the attached generators, storage units, stores and loads plus the flows of all branches and links into and out of the bus (with efficiencies, extra link ports and shared losses) sum to zero. Each bus appears in exactly one balance row, and a bus that has a load but nothing to serve it is an error.",
     "inputs configurations", "all topologies, ports, efficiencies and meshed-bus thresholds", T_OPT, CONS + " pypsa/optimization/common.py",
     [("nodal balance", CONS + ": define_nodal_balance_constraints"), ("meshed buses", "pypsa/optimization/common.py: get_strongly_meshed_buses")], observe=["n.model"])
prop("O09", "Kirchhoff's voltage law and the loss approximation constrain passive flows",
     "For every synchronous zone, period and snapshot, the reactance-weighted (DC: resistance-weighted) flows around each independent cycle sum to zero with consistent orientation and tap scaling. With losses enabled, each active branch's loss is bounded by the tangents of its quadratic loss curve.",
     "inputs configurations", "all cycle structures, periods and tangent counts", T_OPT, CONS + " pypsa/optimization/expressions.py",
     [("cycle constraints", CONS + ": define_kirchhoff_voltage_constraints"), ("loss tangents", CONS + ": define_loss_constraints")], observe=["n.model"])
prop("O10", "The objective is the weighted sum of all investment and operating costs",
     "The objective minimises, over all active assets, marginal, quadratic, spillage, storage, start-up, shut-down and stand-by costs weighted by snapshot and investment-period weightings, plus annuitised capital costs of extendable capacity, less the constant cost of what is already built. Each asset is counted once per period in which it is active.",
     "inputs configurations", "all cost attributes, weightings and multi-period settings", T_OPT, "pypsa/optimization/optimize.py",
     [("objective", "pypsa/optimization/optimize.py: define_objective")], observe=["n.model.objective", "n.objective_constant"])
prop("O11", "Global constraints bound exactly the quantity their type names",
     "Every global constraint (primary energy, operational limit, technology capacity expansion, transmission volume and cost, growth and bus-level carrier limits) limits the documented sum over exactly the selected carriers, buses, periods and snapshots, counting storage level changes, with the given sense and constant. None is silently dropped.",
     "inputs configurations", "all global constraint types, senses and investment periods", T_OPT, "pypsa/optimization/global_constraints.py",
     [("global constraints", "pypsa/optimization/global_constraints.py: define_*")], observe=["n.model"])
prop("O12", "Prescribed operation and energy budgets are enforced",
     "Where a user prescribes the dispatch, flow, state of charge or capacity of an active asset in a snapshot, the model fixes the variable to that value there and nowhere else; yearly energy budgets of generators bound the weighted sum of dispatch over the optimised snapshots.",
     "inputs configurations", "all prescribed series, budgets and snapshot selections", T_OPT, CONS,
     [("fixed operation", CONS + ": define_fixed_operation_constraints"), ("energy budget", CONS + ": define_total_supply_constraints")], observe=["n.model"])
prop("O20", "The model contains nothing beyond the documented rows and columns",
     "Building the optimisation model first checks the network for consistency, then creates the model with exactly the documented variable and constraint families: none is created twice under different conditions, none is added that restricts the feasible set further, and the built model is attached to the network and returned.",
     "inputs configurations", "all networks and model options", T_OPT, "pypsa/optimization/optimize.py",
     [("model assembly", "pypsa/optimization/optimize.py: create_model")], observe=["n.model"])

# ------------------------------------------------------------ power flow
PF = "pypsa/pf.py"
T_PF = "the power-flow tests solve a few reference grids; they do not reach other combinations of taps, phase shifts, shunts, inactive assets, extra link ports, several islands or slack choices"
prop("F01", "Linear power flow gives consistent angles, flows and slack power",
     "For every snapshot the linear power flow writes set-point injections of active assets, bus powers including all link outputs, voltage angles solving the reduced susceptance system with zero angle at the slack, branch flows including phase shifts, and gives the imbalance of each island to its slack bus and slack generator only. Inactive assets contribute nothing, and only the selected snapshots are written.",
     "inputs configurations", "all networks, islands, link ports, phase shifts, activity states and snapshot selections", T_PF, PF,
     [("linear power flow", PF + ": sub_network_lpf"), ("driver over islands", PF + ": network_lpf")], observe=["n.lines_t", "n.buses_t", "n.generators_t"])
prop("F02", "Non-linear power flow solves the full power balance equations",
     "For every snapshot and island the Newton-Raphson power flow solves exactly the mismatch equations of the admittance matrix with their exact Jacobian, keeps set voltages at slack and voltage-controlled buses, and reports iterations, error and convergence. Written branch, shunt, bus and generator powers follow from the solved voltages, and the slack power goes to the slack generator or to the generators in proportion to the requested weights.",
     "inputs configurations", "all networks, slack weightings, seeds and snapshot selections", T_PF, PF,
     [("Newton-Raphson", PF + ": sub_network_pf, newton_raphson_sparse"), ("islands of one bus", PF + ": sub_network_pf_singlebus"), ("driver", PF + ": network_pf")],
     observe=["n.buses_t", "n.lines_t", "n.generators_t"])
prop("F03", "Branch parameters are derived from types and per-unit conversion correctly",
     "Line and transformer impedances, susceptances, nominal powers and tap settings derived from standard types follow the documented formulas, per-unit values use the right voltage or power base, T-model transformers become the equivalent pi model, and missing carriers and voltages come from the connected bus. Untyped components keep their own values.",
     "inputs", "all lines, transformers, shunts, types and tap positions", T_PF, PF,
     [("dependent values", PF + ": calculate_dependent_values, apply_line_types, apply_transformer_types")])
prop("F04", "Susceptance, flow, admittance and transfer matrices describe the grid",
     "The incidence, susceptance, flow-from-angle, admittance and power-transfer matrices of a sub-network contain exactly the active branches with their impedances, tap ratios on the right side, phase shifts and shunts, in the bus order with the slack first. The slack column and row of the transfer matrix are zero.",
     "inputs configurations", "all sub-networks and branch parameters", T_PF, PF,
     [("susceptance matrix", PF + ": calculate_B_H"), ("transfer matrix", PF + ": calculate_PTDF"), ("admittance matrix", PF + ": calculate_Y")])
prop("F05", "Each island gets exactly one slack and consistent bus controls",
     "In every sub-network one bus is the slack: the bus of the slack generator, of the first active generator if none is marked, or the first bus if there is no active generator; surplus slack generators become voltage controlled. Buses with an active voltage-controlling generator control voltage, all others are load buses, and the bus ordering lists slack, voltage-controlled and load buses once each.",
     "inputs configurations", "all generator control settings and activity states", T_PF, PF,
     [("slack choice", PF + ": find_slack_bus"), ("bus controls", PF + ": find_bus_controls")])

# ------------------------------------------------------------ around the solver
T_SOLVE = "the tests compare solved numbers of a few example networks for one selection of snapshots and settings; they do not check what other snapshots, components and options write"
prop("O13", "Solution and shadow prices are written back to the right place",
     "After solving, every dispatch, flow, status and capacity variable is written to the result series or column of its component, other branch ends follow with the right sign and efficiency, fixed capacities are copied to the optimal capacities, and shadow prices go to the series their constraint names. Values of other snapshots, assets and attributes stay as they were.",
     "inputs configurations", "all models, snapshot selections and dual options", T_SOLVE, "pypsa/optimization/optimize.py pypsa/optimization/common.py",
     [("solution", "pypsa/optimization/optimize.py: assign_solution"), ("shadow prices", "pypsa/optimization/optimize.py: assign_duals"),
      ("writing series", "pypsa/optimization/common.py: set_from_frame")], observe=["n.generators_t", "n.buses_t.marginal_price", "n.global_constraints.mu"])
prop("O14", "Derived results after optimisation follow from the solution",
     "After solving, marginal prices are divided by the snapshot weighting, active loads consume their set point, losses are shared equally by both branch ends, bus injections are the signed sum of everything attached, and voltage angles are those of the reduced susceptance system with zero angle at the slack. Only the optimised snapshots change.",
     "inputs configurations", "all networks, islands, link ports and snapshot selections", T_SOLVE, "pypsa/optimization/optimize.py",
     [("post-processing", "pypsa/optimization/optimize.py: post_processing")], observe=["n.buses_t", "n.loads_t.p"])
ABSF = "pypsa/optimization/abstract.py"
prop("O15", "Rolling-horizon optimisation hands storage levels from window to window",
     "The rolling horizon optimises consecutive windows of the requested length and overlap that together cover all snapshots, and each window after the first starts from the storage levels found for the snapshot just before it.",
     "inputs histories", "all horizons, overlaps and snapshot selections", T_SOLVE, ABSF, [("windows", ABSF + ": optimize_with_rolling_horizon")], observe=["n.stores.e_initial"])
prop("O16", "Near-optimal alternatives respect the cost budget",
     "The search for alternatives adds one budget row limiting total cost to the optimal cost times one plus the slack, in the same cost accounting as the optimum, and optimises the weighted sum of the chosen variables in the requested direction. Slack, direction and weights are recorded in the meta data.",
     "inputs configurations", "all weights, senses, slacks and investment periods", T_SOLVE, ABSF, [("budget and direction", ABSF + ": optimize_mga")], observe=["n.model", "n.meta"])
prop("O17", "Security-constrained dispatch survives every listed outage",
     "For every sub-network, every listed outage of an active branch and every active branch, both capacity limits of that branch are repeated with the outaged flow redistributed by the branch outage factors. Unknown branches are rejected and no base limit is lost.",
     "inputs configurations", "all outage lists, sub-networks and branch types", T_SOLVE, ABSF + " pypsa/contingency.py", [("security rows", ABSF + ": optimize_security_constrained")], observe=["n.model"])
prop("O18", "Iterative transmission expansion keeps impedances and capacities consistent",
     "After each iteration the impedances of extended lines are scaled with their capacity, the loop ends at the requested accuracy or iteration limit, the last run fixes (and, where asked, rounds) branch capacities, and afterwards the original capacities and extendability are restored with the fixed cost moved back into the objective. A failed solve is an error.",
     "inputs configurations histories", "all line types, unit sizes, thresholds and iteration settings", T_SOLVE, ABSF,
     [("iterations", ABSF + ": optimize_transmission_expansion_iteratively"), ("rounding", ABSF + ": discretized_capacity")], observe=["n.lines", "n.objective"])
prop("O19", "Solving drivers run every step once, in order, and only write on success",
     "Optimising checks the network, builds the model, calls the user hook, solves, and writes solution, shadow prices and derived results only if the solver succeeded, returning the solver's status. Fixing optimal capacities or dispatch and the combined power-flow run copy exactly the optimal values.",
     "inputs configurations", "all solver outcomes and options", T_SOLVE, "pypsa/optimization/optimize.py " + ABSF,
     [("driver", "pypsa/optimization/optimize.py: optimize, OptimizationAccessor"), ("power flow after optimisation", ABSF + ": optimize_and_run_non_linear_powerflow")])

T_GRID = "the tests build a few small networks without islands, inactive branches, parallel branches of different orientation and retired assets at the same time"
GR = "pypsa/graph.py"
prop("G01", "Sub-networks are the islands of passive branches",
     "Two buses share a sub-network exactly if they are connected by passive branches active in the given investment period; every island gets one sub-network (isolated buses can be skipped), stale ones are removed, and buses and branches carry the label of theirs while branches inactive in the period carry none. Graphs, adjacency and incidence matrices hold one edge, entry or column per selected branch in the given bus order, and the recorded cycles form a signed basis over the active branches of finite impedance, parallel branches included.",
     "inputs configurations", "all topologies, inactive and retired branches, parallel branches, investment periods and bus orders", T_GRID, "pypsa/networks.py " + GR + " " + PF,
     [("topology", "pypsa/networks.py: determine_network_topology"), ("adjacency and incidence", GR + ": adjacency_matrix, incidence_matrix"), ("graph", GR + ": graph"), ("cycles", PF + ": find_cycles")],
     observe=["n.sub_networks", "n.buses.sub_network", "sub_network.C", "n.graph()", "n.adjacency_matrix()", "n.incidence_matrix()"])
prop("F06", "Contingency analysis redistributes exactly the lost flow",
     "After the outage of a branch the flow of every other active branch of its sub-network changes by the outage factor times the flow lost, the flow of the branch itself becomes zero, and flows of other sub-networks stay as they were. The outage factors follow from the transfer factors of the branch and its own self-sensitivity.",
     "inputs configurations", "all sub-networks, outage lists, snapshots and inactive branches", T_GRID, "pypsa/contingency.py",
     [("outage factors", "pypsa/contingency.py: calculate_BODF"), ("flows after outages", "pypsa/contingency.py: network_lpf_contingency")], observe=["n.lpf_contingency()", "sub_network.BODF"])

# ------------------------------------------------------------ the data model
NW = "pypsa/networks.py"
T_DATA = "the tests add, slice, copy and merge a few example networks; they do not look at the other tables, at series of custom attributes, or at the combinations of arguments nobody sampled"
prop("N01", "Adding components puts every value on the right row and snapshot",
     "Adding one or many components creates one row per name with the given values, defaults elsewhere and the right types; values per snapshot become series aligned with the snapshots and names, and extra link ports appear as needed. Values of wrong length, index, names or kind are rejected, and components that exist already are kept with their series unless they are to be overwritten, in which case nothing old survives.",
     "inputs configurations", "all component types, attributes, kinds of values, suffixes and existing networks", T_DATA, NW + " pypsa/io.py pypsa/descriptors.py",
     [("adding", NW + ": Network.add"), ("rows and series", "pypsa/io.py: _import_components_from_df, _import_series_from_df"), ("ports", "pypsa/descriptors.py: update_linkports_component_attrs")],
     observe=["n.add()", "n.generators", "n.generators_t"])
prop("N02", "Removing and renaming components leaves no trace of the old names",
     "Removing components deletes their rows and all their series and nothing else. Renaming changes the names in the component's table, in all its series and in every reference other components make to it, and nothing else.",
     "inputs configurations", "all component types, names and references", T_DATA, NW + " pypsa/components/abstract.py",
     [("removing", NW + ": Network.remove"), ("renaming", "pypsa/components/abstract.py: Components.rename_component_names")], observe=["n.remove()", "n.rename_component_names()"])
prop("N03", "Copies and slices hold exactly the selected part and share nothing",
     "A copy holds every component, series, snapshot, weighting and meta data of the original, restricted to the requested snapshots, and changing one network never changes the other. A slice holds the selected buses and snapshots, all components attached to them and the branches between them, with the series, weightings and investment periods of exactly those.",
     "inputs configurations", "all networks, snapshot selections and bus selections", T_DATA, NW, [("copy", NW + ": Network.copy"), ("slice", NW + ": Network.__getitem__")],
     observe=["n.copy()", "n[buses]"])
prop("N04", "Merging adds all components and series of the other network",
     "Merging adds every component and series of the other network except the kinds of component to be skipped. Names both networks share among these, and different snapshots or weightings unless series are left out, are rejected; the other network and, unless asked otherwise, the first one stay unchanged.",
     "inputs configurations", "all pairs of networks and lists of skipped components", T_DATA, "pypsa/io.py", [("merge", "pypsa/io.py: merge")], observe=["n.merge()"])
prop("N05", "Snapshots, periods and weightings stay aligned with every series",
     "After choosing snapshots or investment periods, all series and weightings of all components have exactly these snapshots, keep their values for snapshots that stay and repeat or take defaults for new ones. Invalid selections and weightings that do not match the snapshots or periods are rejected.",
     "inputs histories", "all snapshot indices, investment periods and weightings", T_DATA, NW,
     [("snapshots", NW + ": Network.set_snapshots, snapshot_weightings"), ("periods", NW + ": Network.set_investment_periods, investment_period_weightings")],
     observe=["n.snapshots", "n.snapshot_weightings", "n.generators_t"])
prop("N07", "Networks compare as equal exactly when all their data agree",
     "Two networks, components or values compare as equal if and only if they have the same type, the same keys, shape, labels and order and the same values, with missing values equal to each other. With strict mode the comparison raises an error instead, naming the difference; no other mode raises for networks that differ.",
     "inputs", "all pairs of values of every kind a network holds, all logging modes", T_DATA, "pypsa/common.py " + NW,
     [("values", "pypsa/common.py: equals"), ("networks", NW + ": Network.equals"), ("components", "pypsa/components/abstract.py: Components.equals")], observe=["n1 == n2", "n1.equals(n2)"])
prop("N06", "Attributes given per snapshot override static values, everywhere alike",
     "For every component and attribute, the value used for an asset and snapshot is its series value if it has a series and its static value otherwise; limits per unit, activity by build year and lifetime, and the sets of extendable and committable assets follow from these. Snapshots or periods the network does not have are rejected.",
     "inputs", "all components, attributes, snapshot selections and subsets of assets", T_DATA, "pypsa/descriptors.py pypsa/common.py pypsa/components/descriptors.py pypsa/components/abstract.py",
     [("static and series values", "pypsa/descriptors.py: get_switchable_as_dense, get_switchable_as_iter, allocate_series_dataframes"), ("activity", "pypsa/descriptors.py: get_activity_mask"),
      ("selections", "pypsa/common.py: as_index")], observe=["n.get_switchable_as_dense()", "n.get_active_assets()"])
prop("G02", "Views of a sub-network show exactly its own components",
     "A sub-network shows the buses and passive branches assigned to it, the one-port components at these buses, and their series, and nothing else. Lists of branches hold every branch of the requested kinds once, and iterating over components leaves out only those without rows.",
     "inputs", "all networks with sub-networks, all components and series", T_DATA, NW,
     [("tables of sub-networks", NW + ": SubNetwork.components, SubNetwork.branches_i, SubNetwork.branches"), ("branches", NW + ": Network.branches, passive_branches, controllable_branches"),
      ("iteration", NW + ": Network.iterate_components, SubNetwork.iterate_components")], observe=["n.sub_networks.obj", "n.branches()"])

# ------------------------------------------------------------ statistics
EX, AB = "pypsa/statistics/expressions.py", "pypsa/statistics/abstract.py"
T_STAT = "the tests mostly check that statistics of two example networks are not empty; they do not look at investment periods, ports, filters and aggregations in combination"
prop("S01", "Cost statistics add up capacity, dispatch and unit commitment costs",
     "The capital cost statistics of an asset are its (installed, optimal, additional) nominal value times its capital cost; operational costs are, weighted over time, marginal costs (linear and quadratic) times dispatch plus storage, start-up, shut-down and stand-by costs. System costs are their sum.",
     "inputs configurations", "all networks, components, cost attributes, investment periods and weightings", T_STAT, EX,
     [("costs", EX + ": StatisticsAccessor.capex, opex, system_cost")], observe=["n.statistics.capex()", "n.statistics.opex()"])
prop("S02", "Capacity statistics report the nominal value seen at the chosen port",
     "Installed, optimal and additional capacities are the nominal values of the assets, in energy where storage capacity is asked for, times the absolute efficiency at the port where the capacity is looked at; and only components with the attribute appear.",
     "inputs configurations", "all components, ports, storage switches and efficiencies", T_STAT, EX,
     [("capacities", EX + ": StatisticsAccessor.installed_capacity, optimal_capacity, expanded_capacity")], observe=["n.statistics.installed_capacity()"])
prop("S03", "Energy statistics follow sign and direction at each bus",
     "Supply is what flows into buses and withdrawal what flows out of them, the energy balance of each component at each bus is the signed sum, weighted over time; revenue, market value, curtailment, capacity factor and transmission derive from the same flows, prices and available energy.",
     "inputs configurations", "all components, ports, signs, prices, directions and weightings", T_STAT, EX,
     [("energy", EX + ": StatisticsAccessor.energy_balance, supply, withdrawal, revenue, curtailment, capacity_factor, market_value, transmission, prices")],
     observe=["n.statistics.energy_balance()", "n.statistics.revenue()"])
prop("S04", "Statistics sum over ports, assets, time and components exactly once",
     "A statistic takes every requested component with members and every requested port once, weights time series with the snapshot weightings (means with weights adding up to one, separately per investment period), groups as asked, and joins the results under the component names; empty parts are left out.",
     "inputs configurations", "all statistics, requests, groupings and aggregations", T_STAT, AB + " " + EX,
     [("over time", AB + ": _aggregate_timeseries"), ("over components", AB + ": _aggregate_components"), ("joining", EX + ": _aggregate_components_concat_data")], observe=["n.statistics()"])
prop("S05", "Statistics filters keep exactly the assets asked for",
     "Only assets active (in each investment period) count; a filter by bus carrier keeps the assets whose bus at the considered port has a matching carrier, a filter by carrier those of matching carrier, an exact name winning over a pattern. Groupings label every asset with its own attribute.",
     "inputs", "all components, ports, filters, groupings and investment periods", T_STAT, AB + " pypsa/statistics/grouping.py",
     [("filters", AB + ": _filter_active_assets, _filter_bus_carrier, _filter_carrier"), ("groups", "pypsa/statistics/grouping.py")], observe=["n.statistics.capex(bus_carrier=...)"])
prop("S06", "Options of statistics drop zeros and round only where asked",
     "Zero rows are dropped exactly if the argument, or without it the global option, says so; rounding uses the digits of the argument or of the global option.",
     "inputs configurations", "all results and option values", T_STAT, EX, [("options", EX + ": _apply_option_kwargs")], observe=["n.statistics.params"])
EXF = "pypsa/optimization/expressions.py"
prop("S07", "Expressions of statistics state the same quantity in model variables",
     "The expression of a statistic is built from the optimisation variables of the assets (net dispatch of storage units, power of stores, fixed values of loads and of assets that cannot be extended) with the cost, efficiency, sign and time weights of the statistic, and is filtered, grouped and joined alike.",
     "inputs configurations", "all components, ports, extendable and fixed assets, directions and groupings", "the tests only check that the expressions are not empty", EXF,
     [("expressions", EXF + ": StatisticExpressionsAccessor")], observe=["n.optimize.expressions.energy_balance()"])

# ------------------------------------------------------------ consistency and options
CO = "pypsa/consistency.py"
T_CONS = "the tests provoke some inconsistencies in one example network each; they do not see the other components, ports, bounds, strict options and combinations"
prop("C01", "Each consistency check reports exactly the inconsistent networks",
     "Every check reports (by a warning, or in strict mode by an error) if and only if something is inconsistent: unknown buses at ports in use, buses without components, unknown carriers, zero impedances, misaligned series, missing or infinite values, contradicting limits, wrong types, unknown periods or shapes.",
     "inputs configurations", "all networks, components, attributes and strict options", T_CONS, CO, [("checks", CO + ": check_for_unknown_buses and the other check functions")],
     observe=["n.consistency_check(strict=...)"])
prop("C02", "The consistency check runs every check, strict exactly where asked",
     "The overall check runs every check on every component, with strictness for exactly the checks named (all of them for 'all'), rejects unknown names, and updates dependent values before; types are only checked on request.",
     "inputs configurations", "all networks and lists of strict options", T_CONS, CO, [("driver", CO + ": consistency_check, plotting_consistency_check")], observe=["n.consistency_check(strict=['all'])"])
prop("Z01", "Options keep what was set, and a context restores what was there",
     "Setting an option (by path or attribute) changes exactly that option, unknown names and names of categories are rejected, a reset brings back the defaults, and after an option context, even one left by an error or naming an option twice, every option has the value it had before.",
     "inputs histories", "all option trees, paths, values and nestings", "the tests set single options and leave contexts without repetition", "pypsa/_options.py",
     [("options", "pypsa/_options.py: OptionsNode, Option, option_context")], observe=["pypsa.options"])

# ------------------------------------------------------------ clustering
CLF = "pypsa/clustering/spatial.py"
T_CLU = "the tests cluster one example network and compare a few totals; they do not see the other attributes, strategies, carriers, series, directions and ports"
prop("K01", "Merged assets and buses keep totals and averages",
     "Merged assets of a cluster and carrier have the sum of the capacities, loads and inflows, the average of costs, efficiencies and availabilities weighted by capacity (evenly without capacity), the given or common value of everything else; the members must agree on what has no strategy; other assets only change their bus. Series follow the same rule as static values.",
     "inputs configurations", "all components, bus maps, carriers, strategies and series", T_CLU, CLF, [("one port", CLF + ": aggregateoneport, align_strategies, normed_or_uniform, make_consense"), ("buses", CLF + ": aggregatebuses")],
     observe=["n.cluster.get_clustering_from_busmap()"])
prop("K02", "Merged lines are electrically equivalent to their originals",
     "Lines within a cluster vanish; parallel lines between two clusters become one with the parallel impedance rescaled to the new length and voltage, the sum of capacities and admittances, and averages weighted by capacity; direction of the original lines does not matter. The line map says where each line went.",
     "inputs configurations", "all lines, bus maps, strategies, length factors and series", T_CLU, CLF, [("lines", CLF + ": aggregatelines")], observe=["n.cluster.get_clustering_from_busmap()"])
prop("K03", "A clustered network contains everything that remains, at the mapped buses",
     "The clustered network has the merged buses and lines, every remaining asset and link at the mapped buses (all ports), links between different clusters only, with length and capital costs scaled, carriers, global constraints, snapshots, weightings and periods of the original, and the series of exactly its members.",
     "inputs configurations", "all networks, bus maps and requests", T_CLU, CLF, [("composition", CLF + ": get_clustering_from_busmap")], observe=["n.cluster.get_clustering_from_busmap()"])
prop("K04", "Bus maps are computed from the requested buses, weights and branches",
     "The bus maps give every requested bus the label found by the clustering method for the positions, weights, features and connections requested; dead ends go to the bus they hang on if the matching attributes agree, repeatedly until none is left.",
     "inputs", "all networks and requests", T_CLU, CLF, [("maps", CLF + ": busmap_by_kmeans, busmap_by_hac, busmap_by_greedy_modularity, busmap_by_stubs")], observe=["n.cluster.busmap_by_stubs()"],
     note="quality of the clusters found by scikit-learn and networkx is not claimed")

# ------------------------------------------------------------ files and other programs
IOF = "pypsa/io.py"
prop("I01", "Every part of a network survives export and import in each format",
     "What is exported to a folder of CSV files, a workbook, NetCDF, HDF5 or the cloud variants is what is read back: attributes, meta data, projection, snapshots (whatever their labels), periods and weightings, all static values that differ from the default and every series that differs from the static value, for every component; nothing else is written.",
     "inputs configurations formats", "all networks, components, attributes, label types and export options",
     "the tests write a few example networks and compare a handful of attributes", IOF,
     [("importers", IOF + ": ImporterCSV, ImporterExcel, ImporterHDF5, ImporterNetCDF, _import_from_importer"), ("exporters", IOF + ": ExporterCSV, ExporterExcel, ExporterHDF5, ExporterNetCDF, _export_to_exporter")],
     observe=["n.export_to_csv_folder()", "n.import_from_netcdf()"],
     note="how pandas, xarray and the spreadsheet engines represent a value in a file is trusted")
prop("I02", "An export to an existing place leaves nothing of earlier exports",
     "After an export into a folder or workbook that already holds an export, the components, series and sheets which the new network does not have are gone, so that an import reads the new network only.",
     "histories", "all sequences of exports to the same place", "the tests export to fresh places", IOF,
     [("removal", IOF + ": ExporterCSV.remove_static, ExporterCSV.remove_series, ExporterExcel.remove_static, ExporterExcel.remove_series")], observe=["n.export_to_csv_folder() twice"])
prop("I03", "Networks of other programs are imported with their physical values",
     "Cases of PYPOWER and pandapower are imported with their buses, loads, generators, shunts, lines, transformers and switches, with impedances, ratings, taps, signs and bases such that the imported network describes the same grid.",
     "inputs configurations", "all case tables and switch settings", "the tests import two example networks and compare a power flow", IOF,
     [("pypower", IOF + ": import_from_pypower_ppc"), ("pandapower", IOF + ": import_from_pandapower_net")], observe=["n.import_from_pypower_ppc()", "n.import_from_pandapower_net()"],
     note="out-of-service elements are not imported specially: documented by a warning")
prop("N08", "Links can have any number of ports",
     "Whenever a link with further ports (bus2, bus3, ...) is added or imported, the attributes of exactly these ports (bus, efficiency, flow) exist with the defaults and status of those of the first ports, in the static table and the series, also in networks that existed before.",
     "inputs histories", "all sequences of additions of links with ports, in any number of networks", "the tests add a link with one further port to fresh networks", "pypsa/descriptors.py",
     [("ports", "pypsa/descriptors.py: additional_linkports, update_linkports_component_attrs, update_linkports_doc_changes")], observe=["n.add('Link', ..., bus2=...)"])

# ------------------------------------------------------------ effects
RO_TECH = "interprocedural effect and alias analysis: the targets of all stores and in-place calls, traced to the objects of the caller"
prop("R01", "Reading a network never changes it",
     "Statistics, expressions, consistency checks, graph and incidence functions, dense views of attributes, clustering, bus maps, exports, copies, slices and comparisons leave the network they are given exactly as it was, including tables, names of axes and lists held by it (apart from dependent values which the consistency check and one bus map update, as documented).",
     "inputs configurations", "all networks, options and calling contexts", "the tests look at results and hardly ever at the network they came from", "pypsa/statistics/expressions.py",
     [("readers", "pypsa/statistics/expressions.py: StatisticsAccessor"), ("clustering", "pypsa/clustering/spatial.py: get_clustering_from_busmap"), ("exports", "pypsa/io.py: export_to_netcdf")],
     observe=["n.statistics(); n.export_to_netcdf(); n.cluster"], technique=RO_TECH)
prop("R02", "Arguments passed to a network function stay as they were",
     "Data, indices, dictionaries and tables passed as arguments to functions that build, import, solve or plot a network (snapshots, periods, attribute values and series, cases of other programs, options, labels and layout settings) are not modified; defaults of arguments are the same in every call.",
     "inputs histories", "all arguments and sequences of calls", "the tests build fresh arguments for every call", "pypsa/networks.py",
     [("adding", "pypsa/networks.py: Network.add, Network.set_snapshots"), ("imports", "pypsa/io.py: _import_series_from_df, import_from_pypower_ppc"), ("plots", "pypsa/plot/maps/interactive.py: iplot")],
     observe=["n.set_snapshots(index)", "n.add(..., p_set=df)"], technique=RO_TECH,
     note="component type registration (pypsa.components.types.add_component_type) completes the table it is given: relied on by the tests, not claimed")

# ------------------------------------------------------------ the interface
prop("D01", "Short names act on their own network with the given arguments",
     "Every method of n.optimize and n.cluster, every function available as a method of a network or sub-network (power flow, graph, import and export, consistency check, ...), the operators + and ==, and the deprecated names (madd, mremove, iplot, explore) do exactly what the documented function does on this very network with all positional and keyword arguments handed on, and return its result.",
     "inputs configurations", "all methods and all argument lists", "the tests call most methods with keyword arguments only", "pypsa/networks.py",
     [("optimisation", "pypsa/optimization/optimize.py: OptimizationAccessor"), ("clustering", "pypsa/clustering/__init__.py: ClusteringAccessor"), ("network", "pypsa/networks.py: Network, SubNetwork")],
     observe=["n.optimize.assign_duals(True)", "n.cluster.cluster_by_busmap(busmap)", "n.madd(...)"],
     technique="resolution of class attributes to functions, and value-flow analysis of the methods that hand their arguments on")
prop("D02", "Old names and arguments keep doing what the new ones do",
     "Code written for earlier versions keeps its meaning: arguments under an old name (n for network, the renamed arguments of each function) are handed on under the new one, both given is an error, and functions, groupers, options and attributes under an old name do exactly what their replacement does on the same network.",
     "inputs configurations versions", "all renamed arguments, functions, groupers and attributes", "the tests call a handful of old names and only look for the warning", "pypsa/common.py",
     [("arguments", "pypsa/common.py: rename_kwargs, deprecated_kwargs, deprecated_common_kwargs"), ("functions", "pypsa/common.py: deprecated_namespace"), ("groupers", "pypsa/statistics/deprecated.py")],
     observe=["n.statistics(bus_carrier=...)", "pypsa.linopf", "n.statistics.groupers.get_country"],
     technique="lookup of the declared renamings against the signatures of all functions, and value-flow analysis of the old names")
prop("S08", "The overview and the groupers of statistics do what is asked for",
     "Calling n.statistics shows every statistic, each computed with exactly the arguments given, on the union of their rows with zeros where one has none; calling one statistic or its plot acts on that statistic of this network; groupers are looked up by name, combined in the order given, and can be added but not overwritten by items.",
     "inputs configurations", "all arguments, groupers and combinations of them", "the tests check that the overview is not empty", "pypsa/statistics/expressions.py",
     [("overview", "pypsa/statistics/expressions.py: StatisticsAccessor.__call__"), ("handler", "pypsa/common.py: MethodHandlerWrapper"), ("groupers", "pypsa/statistics/grouping.py: Groupers")],
     observe=["n.statistics(groupby=...)", "n.statistics.groupers.add_grouper(...)"])
prop("S09", "Charts and maps show the statistic that belongs to what they draw",
     "A chart of a statistic groups the statistic by exactly the columns it draws, over time only where the time is drawn and over components only where the component is not, applies the options in the order: given, of the statistic, default; every value of the statistic becomes one row of the long table, with the colours and labels of the carriers.",
     "inputs configurations", "all chart types, statistics, arguments and carriers", "the tests only run the functions for one example network and look at the type of the result", "pypsa/plot/statistics/charts.py",
     [("charts", "pypsa/plot/statistics/charts.py: ChartGenerator"), ("options", "pypsa/plot/statistics/schema.py: apply_parameter_schema"), ("entry points", "pypsa/plot/statistics/plotter.py")],
     observe=["n.statistics.supply.plot.bar(...)", "n.statistics.energy_balance.plot.map()"])
prop("N09", "Attributes of a network are consistent with each other",
     "The snapshots, timesteps, periods and the flag for periods always describe the same index; setting the reference system or its identifier declares it for the network and its shapes whatever it was before, and converting to another one moves shapes and bus coordinates alike, with x before y.",
     "inputs histories", "all networks and sequences of assignments", "the tests convert one network and check that the coordinates change", "pypsa/networks.py",
     [("index", "pypsa/networks.py: Network.timesteps, Network.periods"), ("reference system", "pypsa/networks.py: Network.crs, Network.to_crs, Network.srid")],
     observe=["n.to_crs(3035)", "n.srid = 3035", "n.periods"])
prop("N10", "All ways to the table of a component lead to the same table",
     "For every component type, the list name and list name with _t on the network, n.static, n.dynamic, n.components, the component sets, branch tables and the iteration over components give the tables of exactly that type, empty with the declared columns at first; a sub-network shows exactly the rows and columns of its own buses, of the branches with its name and of the one-port components at its buses.",
     "inputs configurations", "all networks, component types and sub-networks", "the tests compare a few tables of one example network", "pypsa/networks.py",
     [("network", "pypsa/networks.py: create_component_property, Network"), ("sub-network", "pypsa/networks.py: SubNetwork.components"), ("components", "pypsa/components/abstract.py: Components")],
     observe=["n.generators_t", "n.c.generators.static", "sub_network.generators()"])
prop("O21", "Load shedding is possible at every bus asked for",
     "Adding load shedding creates one generator per bus (all or those given) at that bus with the given sign, price and capacity, named after the bus with the suffix, and with a carrier that is defined in the network; the names are returned.",
     "inputs configurations", "all networks, bus subsets and options", "no test adds load shedding", "pypsa/optimization/optimize.py",
     [("generators", "pypsa/optimization/optimize.py: OptimizationAccessor.add_load_shedding")], observe=["n.optimize.add_load_shedding(buses=...)"])

prop("T01", "A component type is known under one name and complete",
     "Registering a type never replaces another one of that name or list name, keeps the declared attributes, and derives for each its kind (static, varying), type and default of that type; a type is found by either name; components are made of the tables of their own type, and components of another network are never taken for those of this one.",
     "inputs configurations histories", "all types, tables of attributes and sequences of registrations", "the tests register one type once", "pypsa/components/types.py",
     [("types", "pypsa/components/types.py: add_component_type, get"), ("store", "pypsa/definitions/components.py: ComponentsStore"), ("components", "pypsa/components/abstract.py: Components.__init__")],
     observe=["pypsa.components.types.add_component_type(...)", "n.components[...]"])
prop("T02", "Attributes and standard types are those documented",
     "Every documented component has its list name and category, every documented attribute its type, unit, default and status, every standard type of lines and transformers its parameters, and every variable of the optimisation its cost terms and its nominal attribute.",
     "configurations", "every entry of the tables", "the tests use the defaults of some attributes and the parameters of a few standard types", "pypsa/data/component_attrs",
     [("components", "pypsa/data/components.csv"), ("attributes", "pypsa/data/component_attrs"), ("standard types", "pypsa/data/standard_types"), ("variables", "pypsa/data/variables.csv")],
     observe=["n.components.generators.defaults", "n.line_types"],
     technique="comparison of the tables read by the package with a reference table, entry by entry, independent of order and of the notation of numbers")
prop("N11", "A new network is empty and complete, or what the file given says",
     "A new network has one default snapshot with weights of one, no periods, the default reference system, all components, sets of components and accessors of its own, standard types unless switched off, and reads the file given by its kind; further arguments set the attributes of that name after the file was read.",
     "inputs configurations", "all arguments and names of files", "the tests create networks from files with the usual names only", "pypsa/networks.py",
     [("creation", "pypsa/networks.py: Network.__init__")], observe=["pypsa.Network(path, ignore_standard_types=True, srid=...)"])
prop("P01", "Maps draw buses, branches and flows where and as large as they are",
     "Buses lie at their coordinates (or at those of the layout, where given or needed) with areas, shares and colours as given; every branch connects its two buses or follows its own geometry, with its own width, colour and transparency; arrows point in the direction of the flow of their own branch with an area for its size. The extent covers the buses drawn and the margin.",
     "inputs configurations", "all networks, flows, sizes, geometries and options of maps", "the tests only run the functions and compare some counts", "pypsa/plot/maps/static.py",
     [("maps", "pypsa/plot/maps/static.py: MapPlotter, plot"), ("layouts", "pypsa/plot/maps/common.py: apply_layouter"), ("extent", "pypsa/geo.py: compute_bbox, get_projected_area_factor")],
     observe=["n.plot(line_flow='mean', bus_sizes=...)", "MapPlotter(n, ...).draw_map(...)"])
prop("P02", "Interactive maps and legends show the sizes and places drawn on maps",
     "Interactive maps place buses, branches, texts and components at the coordinates of their buses (or at those of the layout, where given or needed) in the reference system asked for. Legend entries have the areas, widths and colours that the same values have on a map, and their labels give the value in a fitting unit.",
     "inputs configurations", "all networks, sizes and options", "the tests only run the functions", "pypsa/plot/maps/interactive.py",
     [("interactive", "pypsa/plot/maps/interactive.py: iplot, explore"), ("legends", "pypsa/plot/maps/static.py: add_legend_circles, get_legend_representatives")],
     observe=["n.plot.iplot()", "n.plot.explore()", "add_legend_circles(ax, sizes, labels)"])
# ------------------------------------------------------------ out of reach of this family
prop("X01", "The reported optimum is optimal for the model",
     "The values returned by an optimisation satisfy the model within the tolerance of the solver, and no feasible point has a lower objective.",
     "inputs", "all feasible networks", "the tests solve a few networks", "pypsa/optimization/optimize.py", [("solving", "pypsa/optimization/optimize.py: optimize")],
     na="optimality is a result of an external compiled solver for runtime data; the source of PyPSA only hands the model over (what is handed over and written back is decided in O01-O20)")
prop("X02", "The power flow converges whenever a solution exists nearby",
     "The Newton-Raphson iteration of the non-linear power flow converges to a solution for networks with a solution near the starting point, and flags are reported truthfully.",
     "inputs", "all networks and starting points", "the tests run a few networks", "pypsa/pf.py", [("newton", "pypsa/pf.py: newton_raphson_sparse")],
     na="convergence depends on runtime numbers (conditioning, starting point) that no static argument bounds; the equations, the Jacobian and the reporting of the flags are decided in F02")
prop("X03", "Numbers and texts survive the file formats bit by bit",
     "Every floating point number, text and time stamp written to a file is read back with exactly the same bits.",
     "inputs formats", "all values", "the tests compare a few values", "pypsa/io.py", [("files", "pypsa/io.py: ExporterCSV, ExporterExcel")],
     na="the encoding of values happens in pandas, xarray, netCDF, HDF5 and spreadsheet libraries outside the repository (CSV and Excel names that look like numbers or NA are known to change); what PyPSA hands to them and takes back is decided in I01")
prop("X04", "Clusterings group similar buses well",
     "The clusters found by k-means, hierarchical and modularity clustering have a near-optimal inertia, linkage or modularity.",
     "inputs", "all networks", "quality is not tested", "pypsa/clustering/spatial.py", [("maps", "pypsa/clustering/spatial.py: busmap_by_kmeans")],
     na="the quality is that of iterative algorithms of scikit-learn and networkx on runtime data; the inputs handed to them and the labels taken back are decided in K04")
prop("X05", "Plots look right",
     "Maps and charts render every element legibly with the sizes and colours asked for.",
     "inputs configurations", "all networks and styles", "the tests only run the functions", "pypsa/plot/maps/static.py", [("maps", "pypsa/plot/maps/static.py: MapPlotter")],
     na="rendering is done by matplotlib, cartopy and plotly; legibility has no static meaning (where and how large elements are handed to them is decided in P01 and P02)")
prop("X06", "Large networks are built within linear time and memory",
     "Building the optimisation model needs time and memory proportional to the number of its coefficients.",
     "inputs", "all networks", "only benchmarks show it", "pypsa/optimization/optimize.py", [("building", "pypsa/optimization/optimize.py: create_model")],
     na="cost is dominated by numpy, pandas and linopy kernels whose complexity for runtime shapes is not visible in the source of PyPSA")

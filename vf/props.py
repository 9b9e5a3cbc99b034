"""The registry: property -> checks."""
from __future__ import annotations

import re

from .norm import mkdict
from .alias import Sharing
from .declared import Declared
from .bound import Bound, Renamed
from .effects import ReadOnly
from .surface import Surface
from .terms import *
from .terms import T

PROPERTIES: dict = {}

RULE = ("normal form of every effect (rows added, values stored, errors raised, results returned) of the public entry point, "
        "obtained by context-sensitive value-flow analysis, equals the normal form of the reference snippet")
EXPL = ("interprocedural value-flow analysis of the current source; each obligation is one effect family or result whose "
        "normal form is compared with the reference; obligations whose construct the analysis does not model are undecided")
ASSUME = ["attributes of a component are the declared ones of the component tables plus user columns",
          "library functions (pandas, numpy, scipy, xarray, linopy) behave as documented",
          "effects are compared after dropping conditions that only matter for empty label sets"]


class Prop:
    def __init__(self, pid, title, checks, floor=1, level="other", rule=RULE, explanation=EXPL, assumptions=ASSUME):
        self.id, self.title, self.checks, self.floor = pid, title, checks, floor
        self.level, self.rule, self.explanation, self.assumptions = level, rule, explanation, assumptions
        PROPERTIES[pid] = self


def surf(*a, **k):
    select = k.pop("select", None)
    extra = k.pop("check_extra", True)
    s = Surface(*a, **k)

    def chk(ctx, res, tier):
        s.run(ctx, res, select, extra)

    chk.title = s.title
    return chk


# ------------------------------------------------------------ primitives
L_SWITCH = surf("pypsa.descriptors.get_switchable_as_dense", "spec.base.switchable_as_dense",
                unprim=["pypsa.descriptors.get_switchable_as_dense"])
L_ACTIVE = surf("pypsa.components.descriptors.get_active_assets", "spec.base.active_assets",
                unprim=["pypsa.components.descriptors.get_active_assets"], roles={"c": "comp"})
L_MASK = surf("pypsa.descriptors.get_activity_mask", "spec.base.activity_mask", unprim=["pypsa.descriptors.get_activity_mask"])
L_MESHED = surf("pypsa.optimization.common.get_strongly_meshed_buses", "spec.base.meshed_buses",
                unprim=["pypsa.optimization.common.get_strongly_meshed_buses"])


# ------------------------------------------------------------ the optimisation model
MODEL_SELECTS = []


def model(*patterns, kinds=("var", "con")):
    """families of the model whose name matches one of the patterns (matched against the printed name)"""
    rx = [re.compile(p) for p in patterns]

    def select(k):
        if k[0] not in kinds:
            return False
        nm = show(k[1]) if isinstance(k[1], T) else str(k[1])
        if k[0] == "store":
            nm = show(k[1]) + "|" + show(k[2])
        return any(r.search(nm) for r in rx)

    MODEL_SELECTS.append(select)
    return surf("pypsa.optimization.optimize.create_model", "spec.model.create_model", select=select, title="model",
                prims=None)


DISP = r"'(Generator|Link|Line|Transformer|Store|StorageUnit)-"

Prop("O01", "Dispatch and flow stay within capacity limits", [
    model(DISP + r"(fix|ext)-(p|s|e|p_dispatch|p_store|state_of_charge)-(lower|upper)'",
          DISP + r"(p|s|e|p_dispatch|p_store|state_of_charge)'"), L_SWITCH, L_MASK, L_ACTIVE], floor=25)
Prop("O02", "Unit commitment", [
    model(r"-com-p-(lower|upper)'", r"-com-transition", r"-(status|start_up|shut_down)'", r"-com-p-(before|current)", r"-com-partly"),
    L_SWITCH, L_MASK], floor=15)
Prop("O03", "Minimum up and down times", [model(r"-com-(up|down)-time", r"-com-status-min")], floor=6)
Prop("O04", "Ramp limits", [model(r"ramp_limit"), L_SWITCH, L_MASK], floor=12)
Prop("O05", "Capacity bounds", [model(r"_nom'$", r"n_mod'", r"_nom-(lower|upper)'", r"_nom_set'", r"modularity")], floor=30)
Prop("O06", "Storage unit energy balance", [model(r"'StorageUnit-(energy_balance|spill)'"), L_SWITCH, L_MASK], floor=2)
Prop("O07", "Store energy balance", [model(r"'Store-(energy_balance|p)'"), L_SWITCH, L_MASK], floor=2)
Prop("O08", "Nodal power balance", [model(r"nodal_balance", r"ValueError", kinds=("con", "raise")), L_MESHED, L_SWITCH], floor=3)
Prop("O09", "Kirchhoff's voltage law and losses", [model(r"Kirchhoff", r"-loss")], floor=9)
Prop("O10", "Objective", [model(r"objective", kinds=("var", "store")), L_SWITCH, L_ACTIVE], floor=3)
Prop("O11", "Global constraints", [model(r"GlobalConstraint", r"Carrier-growth", r"Bus-\{", r"'Bus-'|f'Bus-\{elem", kinds=("con",)), L_ACTIVE, L_SWITCH], floor=7)
Prop("O12", "Fixed operation and energy sums", [model(r"-(p|s|e|p_dispatch|p_store|state_of_charge)_set'", r"e_sum"), L_MASK], floor=8)


def _rest(k):
    return not any(f(k) for f in MODEL_SELECTS)


Prop("O20", "Nothing else in the model", [surf("pypsa.optimization.optimize.create_model", "spec.model.create_model", title="model", select=_rest)], floor=3)


# ------------------------------------------------------------ power flow
def sp(name, fn, spec, **k):
    """surface of a function which is a primitive elsewhere"""
    return surf(f"pypsa.{name}", f"spec.{spec}", unprim=[f"pypsa.{name}"] + list(k.pop("also", ())), **k)


L_DEP = sp("pf.calculate_dependent_values", None, "pf.dependent_values")
Prop("F03", "Per-unit values and standard types", [L_DEP], floor=25)
Prop("F05", "Bus controls", [
    surf("pypsa.pf.find_slack_bus", "spec.pf.slack_bus"), surf("pypsa.pf.find_bus_controls", "spec.pf.bus_controls")], floor=12)
Prop("F04", "Power flow matrices", [sp("pf.calculate_B_H", None, "pf.B_H"), surf("pypsa.pf.calculate_PTDF", "spec.pf.PTDF"), surf("pypsa.pf.calculate_Y", "spec.pf.Y")], floor=20)
Prop("F01", "Linear power flow", [
  surf("pypsa.pf.sub_network_lpf", "spec.pf.lpf"), surf("pypsa.pf._allocate_pf_outputs", "spec.pf.allocate"),
  surf("pypsa.pf._calculate_controllable_nodal_power_balance", "spec.pf.controllable_balance", roles={"network":"net"}),
  surf("pypsa.pf.network_lpf", "spec.pf.network_lpf", calls=[f"pypsa.pf.{f}" for f in ("find_bus_controls", "sub_network_lpf")],
       order=[("find_bus_controls", "calculate_B_H"), ("calculate_B_H", "sub_network_lpf"), ("determine_network_topology", "calculate_dependent_values"), ("calculate_dependent_values", "sub_network_lpf")])])


WEIGHTS = mk("param", "slack_weights", "c")     # one weight per generator or bus


def _ac(**k):
    return surf("pypsa.pf.sub_network_pf", "spec.pf.ac_flow", fixed=k, title="pf " + " ".join(f"{a}={b}" for a, b in k.items()))


Prop("F02", "Non-linear power flow", [
    _ac(skip_pre=True, distribute_slack=False), _ac(skip_pre=False, distribute_slack=False),
    _ac(skip_pre=True, distribute_slack=True, slack_weights="p_set"), _ac(skip_pre=True, distribute_slack=True, slack_weights="p_nom"),
    _ac(skip_pre=True, distribute_slack=True, slack_weights=WEIGHTS),
    *[surf("pypsa.pf.sub_network_pf_singlebus", "spec.pf.single_bus", fixed=f, title="pf_singlebus " + " ".join(f"{a}={b}" for a, b in f.items()))
      for f in (dict(distribute_slack=False), dict(distribute_slack=True, slack_weights="p_set"), dict(distribute_slack=True, slack_weights="p_nom"), dict(distribute_slack=True, slack_weights=WEIGHTS))],
    surf("pypsa.pf.network_pf", "spec.pf.network_pf", calls=[f"pypsa.pf.{f}" for f in ("find_bus_controls", "calculate_Y", "sub_network_pf", "sub_network_pf_singlebus")],
         order=[("find_bus_controls", "calculate_Y"), ("calculate_Y", "sub_network_pf"), ("determine_network_topology", "calculate_dependent_values"), ("calculate_dependent_values", "sub_network_pf")])])



# ------------------------------------------------------------ around the solver
OPT = "pypsa.optimization.optimize."
ABS = "pypsa.optimization.abstract."
SET = "pypsa.optimization.common.set_from_frame"
L_SET = sp("optimization.common.set_from_frame", None, "solve.merge_series")
Prop("O13", "Solution and shadow prices", [
    L_SET, surf(OPT + "assign_solution", "spec.solve.solution", calls=[SET]), surf(OPT + "assign_duals", "spec.solve.shadow_prices", calls=[SET])], floor=15)
Prop("O14", "Post-processing", [L_SET, surf(OPT + "post_processing", "spec.solve.derived_results", calls=[SET])], floor=8)

STEPS = [OPT + f for f in ("optimize", "create_model", "assign_solution", "assign_duals", "post_processing")]
ACC = OPT + "OptimizationAccessor."
Prop("O19", "Solve drivers", [
    surf(OPT + "optimize", "spec.solve.driver", calls=STEPS[1:], order=[("create_model", "solve"), ("solve", "assign_solution"), ("assign_solution", "post_processing"), ("assign_solution", "assign_duals")]),
    surf(ACC + "solve_model", "spec.solve.solve_model", roles={"self": "new:" + ACC[:-1]}, calls=STEPS[1:], order=[("solve", "assign_solution"), ("assign_solution", "post_processing")]),
    surf(ACC + "fix_optimal_capacities", "spec.solve.fix_capacities", roles={"self": "new:" + ACC[:-1]}), surf(ACC + "fix_optimal_dispatch", "spec.solve.fix_dispatch", roles={"self": "new:" + ACC[:-1]}),
    surf(ABS + "optimize_and_run_non_linear_powerflow", "spec.solve.then_power_flow", calls=[OPT + "optimize", "pypsa.pf.network_pf"])])
Prop("O15", "Rolling horizon", [surf(ABS + "optimize_with_rolling_horizon", "spec.solve.rolling_horizon", calls=[OPT + "optimize"])])

STATS = [f"pypsa.statistics.expressions.StatisticsAccessor.{f}" for f in ("capex", "opex", "installed_capex")]
Prop("O16", "Near-optimal alternatives", [surf(ABS + "optimize_mga", "spec.solve.near_optimal", calls=STEPS, values=STATS)])
Prop("O17", "Security-constrained optimisation", [surf(ABS + "optimize_security_constrained", "spec.solve.security_constrained", calls=STEPS + ["pypsa.contingency.calculate_BODF"])])
Prop("O18", "Iterative transmission expansion", [surf(ABS + "discretized_capacity", "spec.solve.discrete"),
  surf(ABS + "optimize_transmission_expansion_iteratively", "spec.solve.transmission_expansion", calls=STEPS)])


# ------------------------------------------------------------ the shape of the grid
SUBROLE = {"n": "sub"}
FIND = ["pypsa.pf.find_cycles", "pypsa.pf.find_bus_controls"]
NET = "pypsa.networks.Network."
Prop("G01", "Topology", [
    surf("pypsa.graph.graph", "spec.grid.network_graph", title="graph of a network"), surf("pypsa.graph.graph", "spec.grid.sub_graph", roles=SUBROLE, title="graph of a sub-network"),
    surf("pypsa.graph.adjacency_matrix", "spec.grid.network_adjacency", title="adjacency of a network"), surf("pypsa.graph.adjacency_matrix", "spec.grid.sub_adjacency", roles=SUBROLE, title="adjacency of a sub-network"),
    surf("pypsa.graph.incidence_matrix", "spec.grid.network_incidence", title="incidence of a network"), surf("pypsa.graph.incidence_matrix", "spec.grid.sub_incidence", roles=SUBROLE, title="incidence of a sub-network"),
    surf("pypsa.pf.find_cycles", "spec.grid.cycles"), surf("pypsa.pf.find_tree", "spec.types.tree"),
    surf(NET + "determine_network_topology", "spec.grid.topology", roles={"self": "net"}, calls=FIND + [NET + "add", NET + "remove"], values=["pypsa.graph.adjacency_matrix"],
         order=[("remove", "add"), ("add", "find_cycles")])])
Prop("F06", "Contingency analysis", [
    surf("pypsa.contingency.calculate_BODF", "spec.grid.bodf"),
    surf("pypsa.contingency.network_lpf_contingency", "spec.grid.outages", calls=["pypsa.contingency.calculate_BODF", "pypsa.pf.network_lpf"], order=[("network_lpf", "calculate_BODF")])])


# ------------------------------------------------------------ the data model
IMPORTS = ["pypsa.io._import_components_from_df", "pypsa.io._import_series_from_df"]
SELF = {"self": "net"}


def _case(name, **attr):
    """a parameter of a known kind"""
    return mk("param", name, *attr)


ONE, MANY = mk("param", "name", "", "builtins.str"), mk("param", "name", "", "builtins.list")
KINDS = {"series": ("c", "pandas.Series"), "array": ("", "numpy.ndarray"), "list": ("", "builtins.list"), "number": ("", "builtins.float"),
         "dict": ("", "builtins.dict"), "frame": ("tc", "pandas.DataFrame")}


def _add_cases():
    for who, name in (("one", ONE), ("many", MANY)):
        for kind, ty in KINDS.items():
            if who == "many" or kind not in ("frame", "array"):
                yield surf(NET + "add", "spec.data.add", roles=SELF, calls=IMPORTS, title=f"add {who} {kind}",
                           fixed={"name": name, "kwargs": mkdict({mk("const", "attr"): mk("param", "value", *ty)})})


PORTS = "pypsa.descriptors.update_linkports_component_attrs"
TABLE = {"df": mk("param", "df", "tc", "pandas.DataFrame")}
Prop("N01", "Adding components", [*_add_cases(),
    surf("pypsa.io._import_components_from_df", "spec.data.take_table", fixed=TABLE, calls=[PORTS], title="rows"),
    surf("pypsa.io._import_series_from_df", "spec.data.take_series", fixed=TABLE, title="series"),
    surf(PORTS, "spec.data.with_more_ports", title="ports")], floor=44)
Prop("N02", "Removing and renaming components", [surf(NET + "remove", "spec.data.remove", roles=SELF),
    surf("pypsa.components.abstract.Components.rename_component_names", "spec.data.rename", roles={"self": "comp"})])
Prop("N05", "Snapshots, periods and weightings", [
    surf(NET + "set_snapshots", "spec.data.choose_snapshots", roles=SELF), surf(NET + "set_investment_periods", "spec.data.choose_periods", roles=SELF),
    surf(NET + "snapshot_weightings", "spec.data.choose_weightings", roles=SELF), surf(NET + "investment_period_weightings", "spec.data.choose_period_weightings", roles=SELF)])

TYPED = lambda name, ty, axes="": mk("param", name, axes, ty)
BUILD = [NET + "add", NET + "set_snapshots", NET + "set_investment_periods", *IMPORTS]
NOARGS = dict(snapshots=None, investment_periods=None, ignore_standard_types=False, with_time=None)
Prop("N03", "Copies and parts of a network", [
    surf(NET + "copy", "spec.data.whole_copy", roles=SELF, fixed=NOARGS, title="copy"),
    surf(NET + "copy", "spec.data.partial_copy", roles=SELF, fixed={**NOARGS, "snapshots": TYPED("snapshots", "pandas.Index")}, calls=BUILD, title="copy of some snapshots",
         order=[("add", "set_snapshots"), ("set_snapshots", "store")]),
    surf(NET + "copy", "spec.data.partial_copy", roles=SELF, fixed={**NOARGS, "ignore_standard_types": True}, calls=BUILD, title="copy without types"),
    surf(NET + "copy", "spec.data.partial_copy", roles=SELF, fixed={**NOARGS, "with_time": TYPED("with_time", "builtins.int")}, calls=BUILD, title="copy without series"),
    *[surf(NET + "__getitem__", "spec.data.part", roles=SELF, fixed={"key": v}, calls=BUILD, title=f"part {t}") for t, v in (
        ("one", TYPED("key", "builtins.str")), ("many", TYPED("key", "pandas.Index")), ("snapshots", mk("tuple", TYPED("times", "pandas.Index"), TYPED("key", "pandas.Index"))))],
    Sharing(NET + "copy", NOARGS, [], title="copy"), Sharing(NET + "copy", {**NOARGS, "snapshots": TYPED("snapshots", "pandas.Index")}, BUILD, title="copy of some snapshots"),
    Sharing(NET + "__getitem__", {"key": TYPED("key", "pandas.Index")}, BUILD, title="part"),
    Sharing(NET + "__getitem__", {"key": mk("tuple", TYPED("times", "pandas.Index"), TYPED("key", "pandas.Index"))}, BUILD, title="part of some snapshots")])
EQ = "pypsa.common.equals"
Prop("N07", "Comparing networks", [
    *[surf(EQ, "spec.same.same", fixed={"a": TYPED("a", ty, ax), "log_mode": mode}, **{"calls" if mode == "strict" else "values": [EQ]}, title=f"{ty.split('.')[-1]} {mode}")
      for ty, ax in (("numpy.ndarray", ""), ("pandas.DataFrame", "tc"), ("pandas.Series", "c"), ("pandas.Index", ""), ("builtins.dict", ""), ("builtins.list", ""), ("builtins.tuple", ""),
                     ("builtins.str", ""), ("builtins.float", ""), ("builtins.bool", ""),
                     ("pypsa.definitions.components.ComponentsStore", ""), ("pypsa.definitions.structures.Dict", ""), ("shapely.geometry.base.BaseGeometry", "")) for mode in ("silent", "strict")],
    *[surf(NET + "equals", "spec.same.same_network", roles={"self": "net", "other": "other"}, fixed={"log_mode": mode}, **{"calls" if mode == "strict" else "values": [EQ]}, title=f"networks {mode}") for mode in ("silent", "strict", "verbose")],
    surf("pypsa.components.abstract.Components.equals", "spec.same.same_components", roles={"self": "comp"}, values=[EQ])])
Prop("N04", "Merging networks", [surf("pypsa.io.merge", "spec.data.merge", roles={"other": "other"}, calls=BUILD + [NET + "copy"], order=[("add", "_import_series_from_df", "same component")]),
    Sharing("pypsa.io.merge", {}, BUILD + [NET + "copy"], sources=("n", "other"), title="merge", objects=False)])
DS = "pypsa.descriptors."
CP = "pypsa.components.abstract.Components."
Prop("N06", "Attribute access", [
    L_SWITCH, L_MASK, L_ACTIVE,
    *[surf("pypsa.common.as_index", "spec.select.labels", unprim=["pypsa.common.as_index"], fixed={"values": v, "network_attribute": a}, title=f"labels {a} {t}")
      for a in ("snapshots", "investment_periods") for t, v in (("all", None), ("one", TYPED("values", "builtins.int")), ("index", TYPED("values", "pandas.Index")), ("multi", TYPED("values", "pandas.MultiIndex")), ("list", TYPED("values", "builtins.list")))],
    *[surf(DS + "get_switchable_as_iter", "spec.select.per_snapshot", fixed={"inds": v}, title=f"per snapshot {t}") for t, v in (("all", None), ("some", TYPED("inds", "pandas.Index")))],
    surf(DS + "allocate_series_dataframes", "spec.select.allocate"), surf(DS + "free_output_series_dataframes", "spec.select.free"),
    *[surf(DS + f, "spec.select." + s, fixed={"c": c}, title=f"{f} {c}") for f, s in (("get_extendable_i", "extendable"), ("get_non_extendable_i", "non_extendable"), ("get_committable_i", "committable"))
      for c in ("Generator", "Line", "Transformer", "Link", "Store", "StorageUnit")],
    *[surf(DS + "get_bounds_pu", "spec.select.bounds", fixed={"c": c, "attr": a}, title=f"bounds {c} {a}") for c in ("Generator", "Line", "Transformer", "Link", "Store") for a in (None,)],
    *[surf(DS + "get_bounds_pu", "spec.select.bounds", fixed={"c": "StorageUnit", "attr": a}, title=f"bounds StorageUnit {a}") for a in ("p_dispatch", "p_store", "state_of_charge")],
    surf(DS + "additional_linkports", "spec.select.linkports"),
    *[surf(DS + "bus_carrier_unit", "spec.select.unit", fixed={"bus_carrier": v}, title=f"unit {t}") for t, v in (("none", None), ("one", TYPED("bus_carrier", "builtins.str")), ("many", TYPED("bus_carrier", "builtins.list")))],
    surf(DS + "expand_series", "spec.select.expand", unprim=[DS + "expand_series"]),
    surf(CP + "ports", "spec.select.ports", roles={"self": "comp"}), surf(CP + "units", "spec.select.units", roles={"self": "comp"}),
    surf(CP + "nominal_attr", "spec.select.nominal", roles={"self": "comp"})])
SUB = "pypsa.networks.SubNetwork."
COBJ = lambda kind: mk("cobj", mk("net", "n"), const(kind))
Prop("G02", "Views of sub-networks", [
    *[surf(SUB + "components", "spec.select.sub_lookup", roles={"self": "sub"}, then=(const(key), COBJ(kind)), title=f"{key} {kind}")
      for kind in ("Bus", "Line", "Transformer", "Generator", "Load", "Store", "StorageUnit", "ShuntImpedance", "Link") for key in ("static", "dynamic", "name") if (kind, key) != ("Link", "dynamic")],
    *[surf(SUB + f, "spec.select.sub_" + f, roles={"self": "sub"}) for f in (
        "buses_i lines_i transformers_i generators_i loads_i shunt_impedances_i storage_units_i stores_i buses generators loads shunt_impedances storage_units stores "
        "snapshots snapshot_weightings investment_periods investment_period_weightings branches_i").split()],
    surf(SUB + "branches", "spec.select.sub_branches", roles={"self": "sub"}, unprim=[SUB + "branches"]),
    surf(SUB + "iterate_components", "spec.select.sub_each", roles={"self": "sub"}), surf(NET + "iterate_components", "spec.select.each", roles=SELF),
    *[surf(NET + f, "spec.select." + f, roles=SELF) for f in ("branches", "passive_branches", "controllable_branches")]])
ST = "pypsa.statistics.expressions.StatisticsAccessor"
AGG = "pypsa.statistics.abstract.AbstractStatisticsAccessor."
ASSETS = ("Generator", "Line", "Transformer", "Link", "Store", "StorageUnit", "Load", "ShuntImpedance")


def stat(name, where="", kinds=ASSETS, ports=("",), cls=ST, spec="spec.stats.", calls=(), **kw):
    inner = [(mk("net", "n"), const(k), const(p)) for k in kinds for p in (("0", "1", "2") if k == "Link" else ("0", "1") if k in ("Line", "Transformer") else ("",))]
    return surf(cls + "." + name, spec + (where or name), roles={"self": "new:" + cls}, calls=[AGG + "_aggregate_components", *calls], values=[AGG + "_aggregate_timeseries"], inner=inner, **kw)


OTHERS = lambda *names: [ST + "." + x for x in names]
Prop("S01", "Cost statistics", [
    stat("capex"), stat("installed_capex"), stat("expanded_capex", calls=OTHERS("capex", "installed_capex")), stat("opex"), stat("system_cost", calls=OTHERS("capex", "opex"))])
Prop("S02", "Capacity statistics", [
    *[stat(f, fixed={"at_port": a, "storage": s}, title=f"{f} {a} {s}") for f in ("optimal_capacity", "installed_capacity") for a in (None, True, False) for s in (True, False)],
    stat("expanded_capacity", calls=OTHERS("optimal_capacity", "installed_capacity"))])
Prop("S03", "Energy statistics", [
    *[stat(f, calls=OTHERS("energy_balance")) for f in ("supply", "withdrawal")],
    *[stat("energy_balance", fixed={"direction": d}, title=f"energy_balance {d}") for d in (None, "supply", "withdrawal")],
    *[stat("revenue", fixed={"direction": d}, title=f"revenue {d}") for d in (None, "input", "output", "both")],
    stat("transmission", calls=["pypsa.statistics.expressions.get_transmission_branches"]), stat("curtailment"), stat("capacity_factor", calls=OTHERS("optimal_capacity")),
    stat("market_value", calls=OTHERS("revenue", "supply"))])
STA = lambda name, spec, pre=AGG, **kw: surf(pre + name, "spec.stats." + spec, roles={"self": "new:" + ST}, **kw)
HOOKS = [AGG + x for x in ("_filter_active_assets", "_filter_bus_carrier", "_filter_carrier", "_get_grouping")] + [ST + "." + x for x in (
    "_aggregate_components_groupby", "_aggregate_components_concat_values", "_aggregate_components_concat_data", "_apply_option_kwargs", "_aggregate_across_components")]
TABLES = (("series", TYPED("obj", "pandas.Series", "c")), ("table", TYPED("obj", "pandas.DataFrame", "tc")))
Prop("S04", "Aggregation of statistics", [
    *[surf(ST + "._aggregate_timeseries", "spec.stats.over_time", fixed={"agg": a}, title=f"over time {a}") for a in ("sum", "mean", "max", False)],
    STA("_aggregate_components_concat_values", "joined_ports", ST + "."), STA("_aggregate_components_concat_data", "joined_components", ST + "."),
    STA("_aggregate_components_groupby", "grouped", ST + ".", fixed={"grouping": mkdict({const("by"): mk("param", "by"), const("level"): mk("param", "level")})}), STA("_aggregate_across_components", "across", ST + "."),
    *[STA("_aggregate_components", "over_components", values=HOOKS, fixed={"comps": v, "groupby": g}, title=f"over components {t} {g}") for g in ("carrier", False)
      for t, v in (("one", TYPED("comps", "builtins.str")), ("all", None), ("many", TYPED("comps", "builtins.list")))]])
GP, SX = "pypsa.statistics.grouping.Groupers", "pypsa.statistics.expressions."
GRP = lambda name, spec, **kw: surf(GP + "." + name, "spec.stats." + spec, roles={"self": "new:" + GP}, **kw)
Prop("S05", "Filters and groups of statistics", [
    *[STA("_filter_active_assets", "active_only", fixed={"obj": v}, title=f"active {t}") for t, v in TABLES],
    *[STA("_filter_bus_carrier", "at_carrier", fixed={"bus_carrier": v, "obj": TABLES[0][1]}, title=f"bus carrier {t}") for t, v in (
        ("none", None), ("one", TYPED("bus_carrier", "builtins.str")), ("many", TYPED("bus_carrier", "builtins.list")), ("bad", TYPED("bus_carrier", "builtins.int")))],
    *[STA("_filter_carrier", "of_carrier", fixed={"carrier": v, "obj": TABLES[0][1]}, title=f"carrier {t}") for t, v in (
        ("none", None), ("one", TYPED("carrier", "builtins.str")), ("many", TYPED("carrier", "builtins.list")), ("bad", TYPED("carrier", "builtins.int")))],
    STA("_get_grouping", "how_to_group"),
    *[GRP(f, "by_" + f) for f in "carrier bus_carrier bus country location unit name".split()], GRP("_get_generic_grouper", "by_attribute"),
    *[GRP("_multi_grouper", "one_or_many", fixed={"keys": v}, then=(mk("net", "n"), mk("param", "c"), mk("param", "port"), mk("param", "nice_names")), values=[GP + ".list_groupers", GP + "._get_generic_grouper"], title=f"grouper of {t}")
      for t, v in (("one key", TYPED("keys", "builtins.str")), ("many keys", TYPED("keys", "builtins.list")))],
    *[surf(SX + "get_transmission_branches", "spec.stats.transmission_branches", fixed={"bus_carrier": v}, title=f"transmission branches {t}") for t, v in (
        ("all", None), ("one", TYPED("bus_carrier", "builtins.str")), ("many", TYPED("bus_carrier", "builtins.list")))],
    surf(SX + "get_transmission_carriers", "spec.stats.transmission_carriers", values=[SX + "get_transmission_branches"])])
Prop("S06", "Options of statistics", [STA("_apply_option_kwargs", "options_applied", ST + ".")])
EXPR = "pypsa.optimization.expressions.StatisticExpressionsAccessor"
expr = lambda name, **kw: stat(name, cls=EXPR, spec="spec.exprs.", **kw)
EXH = lambda name, spec, **kw: surf(EXPR + "." + name, "spec.exprs." + spec, roles={"self": "new:" + EXPR}, **kw)
Prop("S07", "Statistics as expressions", [
    *[expr("capex", fixed={"include_non_extendable": v}, title=f"capex expression {v}") for v in (True, False)],
    *[expr("capacity", fixed={"at_port": a, "storage": s}, title=f"capacity expression {a} {s}") for a in (None, True, False) for s in (True, False)],
    expr("opex"), expr("transmission", calls=["pypsa.statistics.expressions.get_transmission_branches"]), expr("curtailment"), expr("operation"),
    *[expr("energy_balance", fixed={"kind": d}, title=f"energy_balance expression {d}") for d in (None, "supply", "withdrawal")],
    *[expr(f, calls=[EXPR + ".energy_balance"]) for f in ("supply", "withdrawal")],
    EXH("_get_grouping", "grouping", values=[AGG + "_get_grouping"]), EXH("_aggregate_components_skip_iteration", "skipped"), EXH("_aggregate_components_groupby", "grouped"),
    EXH("_aggregate_components_concat_values", "joined_ports"), EXH("_aggregate_components_concat_data", "joined_components"),
    EXH("_apply_option_kwargs", "unchanged"), EXH("_aggregate_across_components", "across", values=["pypsa.optimization.expressions.check_if_empty"]), surf(EXPR + "._aggregate_with_weights", "spec.exprs.weighted")])
CC = "pypsa.consistency."
CHECKS = (("check_for_unknown_buses", "unknown_buses"), ("check_for_disconnected_buses", "disconnected_buses"), ("check_for_unknown_carriers", "unknown_carriers"),
          ("check_for_zero_impedances", "zero_impedances"), ("check_for_zero_s_nom", "zero_s_nom"), ("check_time_series", "time_series"), ("check_static_power_attributes", "static_power_attributes"),
          ("check_time_series_power_attributes", "time_series_power_attributes"), ("check_assets", "assets"), ("check_generators", "generators"), ("check_dtypes_", "dtypes"),
          ("check_investment_periods", "investment_periods"), ("check_shapes", "shapes"), ("check_nans_for_component_default_attrs", "nans"), ("check_for_missing_carrier_colors", "missing_colors"))
Prop("C01", "Consistency checks", [
    surf(CC + f, "spec.checks." + s, roles={"component": "comp"}, fixed={"strict": v}, kinds=("store", "call", "raise", "warn"), title=f"{s} {'strict' if v else 'lenient'}") for f, s in CHECKS for v in (True, False)])
Prop("C02", "Consistency check as a whole", [
    surf(CC + "consistency_check", "spec.checks.check", calls=[CC + f for f, _ in CHECKS] + [NET + "calculate_dependent_values"], fixed={"strict": v}, title=f"all checks {t}")
    for t, v in (("lenient", None), ("strict", TYPED("strict", "builtins.list")))] + [
    surf(CC + "plotting_consistency_check", "spec.checks.plot_check", calls=[CC + f for f, _ in CHECKS], fixed={"strict": v}, title=f"plotting checks {t}")
    for t, v in (("lenient", None), ("strict", TYPED("strict", "builtins.list")))])
OP = "pypsa._options."
NODE = OP + "OptionsNode."
PATH, NAME = {"path": TYPED("path", "builtins.str")}, {"name": TYPED("name", "builtins.str")}
Prop("Z01", "Options", [
    surf(NODE + "get_option", "spec.opts.get_option", fixed=PATH), surf(NODE + "set_option", "spec.opts.set_option", fixed=PATH), surf(NODE + "__getattr__", "spec.opts.getattr_", fixed=NAME),
    surf(NODE + "__setattr__", "spec.opts.setattr_", fixed=NAME), surf(NODE + "_add_option", "spec.opts.add_option", fixed=PATH),
    surf(NODE + "reset_all", "spec.opts.reset_all", calls=[NODE + "reset_all", OP + "Option.reset"]),
    surf(OP + "Option.reset", "spec.opts.reset"), surf(OP + "Option.value", "spec.opts.set_value"), surf(OP + "Option.__init__", "spec.opts.construct"),
    surf(OP + "option_context", "spec.opts.context", calls=[NODE + "get_option", NODE + "set_option"])])
CL = "pypsa.clustering.spatial."
PARTS = [CL + f for f in ("align_strategies", "flatten_multiindex", "normed_or_uniform", "make_consense")]
Prop("K01", "Clustering of assets and buses", [
    surf(CL + "normed_or_uniform", "spec.cluster.shares"), surf(CL + "make_consense", "spec.cluster.consense", inner=[(mk("param", "x"),)]), surf(CL + "align_strategies", "spec.cluster.chosen", fixed={"strategies": mk("dictmerge", mk("param", "some"), mk("param", "more"))}),
    surf(CL + "flatten_multiindex", "spec.cluster.one_name"),
    surf(CL + "aggregatebuses", "spec.cluster.buses"),
    *[surf(CL + "aggregateoneport", "spec.cluster.assets", fixed={"with_time": w}, title=f"assets {w}") for w in (True, False)]])
Prop("K02", "Clustering of lines", [
    surf("pypsa.geo.haversine_pts", "spec.cluster.distance"), surf("pypsa.geo.haversine", "spec.cluster.distances"),
    *[surf(CL + "aggregatelines", "spec.cluster.lines", fixed={"with_time": w}, title=f"lines {w}") for w in (True, False)]])
AGGREGATES = [CL + f for f in ("aggregatebuses", "aggregatelines", "aggregateoneport")]
Prop("K03", "The clustered network", [
    *[surf(CL + "get_clustering_from_busmap", "spec.cluster.clustered", fixed={"with_time": w, "aggregate_generators_weighted": g}, values=AGGREGATES, calls=BUILD + [NET + "determine_network_topology"],
           title=f"clustered {w} {g}", order=[("add", "_import_series_from_df", "same component"), ("set_snapshots", "_import_series_from_df")]) for w in (True, False) for g in (True, False)]])
Prop("K04", "Bus maps", [
    surf(CL + "busmap_by_kmeans", "spec.cluster.by_place"), surf(CL + "busmap_by_hac", "spec.cluster.by_similarity", values=["pypsa.graph.adjacency_matrix"]),
    surf(CL + "busmap_by_greedy_modularity", "spec.cluster.by_modularity", calls=[NET + "calculate_dependent_values"]), surf(CL + "busmap_by_stubs", "spec.cluster.by_stubs", values=["pypsa.graph.graph"]),
    *[surf(CL + f + "_clustering", "spec.cluster." + s, values=[CL + "get_clustering_from_busmap", CL + "busmap_by_" + f]) for f, s in (("kmeans", "kmeans"), ("hac", "hac"), ("greedy_modularity", "modularity"))]])
IO = "pypsa.io."
FORMATS = (("CSV", "csv"), ("Excel", "xls"), ("HDF5", "h5"), ("NetCDF", "nc"))
PARTS_IO = ("attributes", "meta", "crs", "snapshots", "investment_periods", "static", "series")


def fmt(cls, prefix, f, **kw):
    names = {"list_name": TYPED("list_name", "builtins.str"), "attr": TYPED("attr", "builtins.str")}
    return surf(f"{IO}{cls}.{f}", f"spec.io.{prefix}_{f}", roles={"self": "a:" + IO + cls}, fixed=names, values=[IO + "_parse_snapshots", IO + "ExporterExcel.writer", "axis names"], title=f"{cls} {f}", **kw)


Prop("I01", "Files hold the network", [
    *[fmt("Importer" + c, p, "get_" + k) for c, p in FORMATS for k in PARTS_IO],
    *[fmt("Exporter" + c, p, "save_" + k) for c, p in FORMATS for k in PARTS_IO],
    surf(IO + "_parse_snapshots", "spec.io.labels_of"), fmt("ExporterExcel", "xls", "writer"),
    *[fmt("Exporter" + c, p, "finish") for c, p in FORMATS[1:]],
    *[surf(IO + c + ".__init__", "spec.io.open_" + f, values=[IO + "_retrieve_from_url"], title=f"open {f}") for c, f in (
        ("ImporterCSV", "csv_in"), ("ExporterCSV", "csv_out"), ("ImporterExcel", "xls_in"), ("ExporterExcel", "xls_out"), ("ImporterHDF5", "h5_in"), ("ExporterHDF5", "h5_out"),
        ("ImporterNetCDF", "nc_in"), ("ExporterNetCDF", "nc_out"))],
    surf(IO + "ImpExper.__enter__", "spec.io.enter"), surf(IO + "ImpExper.__exit__", "spec.io.leave"),
    *[surf(IO + f, "spec.io." + s, calls=[IO + "_import_from_importer", IO + "_export_to_exporter"], fixed=x) for f, s, x in (
        ("import_from_csv_folder", "from_csv", {}), ("export_to_csv_folder", "to_csv", {}), ("import_from_excel", "from_excel", {}), ("export_to_excel", "to_excel", {}),
        ("import_from_hdf5", "from_hdf5", {}), ("export_to_hdf5", "to_hdf5", {}), ("import_from_netcdf", "from_netcdf", {}), ("export_to_netcdf", "to_netcdf", {}))],
    *[surf(IO + "_export_to_exporter", "spec.io.export", fixed={"export_standard_types": v}, title=f"export {v}", values=["axis names"],
           order=[("remove_all_series", "save_series"), ("save_static", "save_series")]) for v in (True, False)],
    *[surf(IO + "_import_from_importer", "spec.io.import_", fixed={"skip_time": v}, title=f"import {v}", calls=BUILD) for v in (True, False)]])
Prop("I02", "Earlier exports leave nothing behind", [
    *[fmt("Exporter" + c, p, k) for c, p in FORMATS[:2] for k in ("remove_static", "remove_series", "remove_all_series")],
    *[surf(IO + "_export_to_exporter", "spec.io.export", fixed={"export_standard_types": v}, title=f"removals {v}", values=["axis names"],
           order=[("remove_all_series", "save_series")], select=lambda k: k[0] == "call" and "remove_" in "".join(show(x) for x in k[1:] if isinstance(x, T))) for v in (True, False)],
], floor=60)
Prop("I03", "Networks of other programs", [
    surf(IO + "import_from_pypower_ppc", "spec.io.pypower", calls=BUILD),
    *[surf(IO + "import_from_pandapower_net", "spec.io.pandapower", fixed={"extra_line_data": v}, title=f"pandapower {v}", calls=BUILD + [NET + "remove"]) for v in (True, False)]])
PORTS = "pypsa.descriptors."
Prop("N08", "Links with more than two ports", [
    surf(PORTS + "additional_linkports", "spec.data.port_labels"), surf(PORTS + "update_linkports_doc_changes", "spec.data.renamed"),
    surf(PORTS + "update_linkports_component_attrs", "spec.data.with_more_ports", values=[PORTS + "additional_linkports", PORTS + "update_linkports_doc_changes"])])
# ------------------------------------------------------------ effects on objects of the caller
STATNAMES = ("capex", "installed_capex", "expanded_capex", "optimal_capacity", "installed_capacity", "expanded_capacity", "opex", "system_cost", "supply", "withdrawal",
             "transmission", "energy_balance", "curtailment", "capacity_factor", "revenue", "market_value")
EXPRNAMES = ("capex", "capacity", "opex", "transmission", "energy_balance", "supply", "withdrawal", "curtailment", "operation")
DESC = "pypsa.descriptors."


def ro(qual, **kw):
    return ReadOnly(qual, **kw)


def args_ro(qual, **kw):
    return ReadOnly(qual, only_arguments=True, title=qual.split("pypsa.")[-1] + " arguments", **kw)


R_RULE = "no effect (item, attribute or in-place method) of the function, in any context, has a target reached from an object of the caller"
Prop("R01", "Reading leaves the network unchanged", [
    *[ro(f"{ST}.{f}", roles={"self": "new:" + ST}, calls=[f"{ST}.{g}" for g in STATNAMES if g != f]) for f in STATNAMES],
    *[ro(f"{EXPR}.{f}", roles={"self": "new:" + EXPR}, calls=[f"{EXPR}.{g}" for g in EXPRNAMES if g != f]) for f in EXPRNAMES],
    *[ro(CC + f, roles={"component": "comp"}) for f, _ in CHECKS],
    ro(CC + "plotting_consistency_check"), ro(CC + "consistency_check", may=["calculate_dependent_values"]),
    *[ro("pypsa.graph." + f) for f in ("graph", "adjacency_matrix", "incidence_matrix")],
    *[ro("pypsa.graph." + f, roles={"n": "sub"}, title=f"{f} of a sub-network") for f in ("graph", "adjacency_matrix", "incidence_matrix")],
    *[ro(DESC + f, unprim=[DESC + f]) for f in ("get_switchable_as_dense", "get_switchable_as_iter", "get_activity_mask", "get_bounds_pu", "get_extendable_i", "get_non_extendable_i", "get_committable_i", "bus_carrier_unit")],
    *[ro(CL + f, calls=BUILD) for f in ("get_clustering_from_busmap", "aggregateoneport", "aggregatebuses", "aggregatelines", "busmap_by_kmeans", "busmap_by_hac", "busmap_by_stubs", "make_consense", "normed_or_uniform")],
    ro(CL + "busmap_by_greedy_modularity", may=["calculate_dependent_values"]),
    *[ro(IO + f) for f in ("export_to_csv_folder", "export_to_excel", "export_to_hdf5", "export_to_netcdf")],
    ro(NET + "copy", roles=SELF, calls=BUILD), ro(NET + "__getitem__", roles=SELF, calls=BUILD), ro("pypsa.common.equals"),
], rule=R_RULE)
Prop("R02", "Arguments stay as they were", [
    args_ro(NET + "add", roles=SELF), args_ro(NET + "remove", roles=SELF), args_ro(NET + "set_snapshots", roles=SELF), args_ro(NET + "set_investment_periods", roles=SELF),
    args_ro("pypsa.common.as_index", unprim=["pypsa.common.as_index"]), args_ro(IO + "merge", roles={"other": "param"}, calls=BUILD + [NET + "copy"]),
    *[args_ro(IO + f) for f in ("import_from_pypower_ppc", "import_from_pandapower_net", "_import_components_from_df", "_import_series_from_df", "import_components_from_dataframe", "import_series_from_dataframe")],
    *[args_ro("pypsa.optimization.optimize." + f) for f in ("optimize", "create_model")],
    args_ro("pypsa.plot.maps.interactive.iplot", may=["^at<fig"]), args_ro("pypsa.plot.statistics.charts.ChartGenerator.iplot", roles={"self": "a:pypsa.plot.statistics.charts.ChartGenerator"}),
    *[args_ro("pypsa.optimization.abstract." + f, calls=["pypsa.optimization.optimize.optimize"]) for f in ("optimize_with_rolling_horizon", "optimize_security_constrained")],
    args_ro("pypsa.pf.network_pf"), args_ro("pypsa.contingency.network_lpf_contingency"),
], rule=R_RULE)


# ------------------------------------------------------------ the interface
ABSTRACT = ("optimize_transmission_expansion_iteratively", "optimize_security_constrained", "optimize_with_rolling_horizon", "optimize_mga",
            "optimize_and_run_non_linear_powerflow")
SUBNET, COMPS = "pypsa.networks.SubNetwork.", "pypsa.components.abstract.Components."
NEWACC, CLACC = {"self": "new:" + ACC[:-1]}, "pypsa.clustering.ClusteringAccessor."
CLFUN = ["busmap_by_hac", "busmap_by_kmeans", "busmap_by_greedy_modularity", "hac_clustering", "kmeans_clustering", "greedy_modularity_clustering", "get_clustering_from_busmap"]
ON_NETWORK = {
    **{f: IO + f for f in ("import_from_csv_folder", "export_to_csv_folder", "import_from_excel", "export_to_excel", "import_from_hdf5", "export_to_hdf5", "import_from_netcdf",
                           "export_to_netcdf", "import_from_pypower_ppc", "import_from_pandapower_net", "merge", "import_components_from_dataframe", "import_series_from_dataframe")},
    "calculate_dependent_values": "pypsa.pf.calculate_dependent_values", "lpf": "pypsa.pf.network_lpf", "pf": "pypsa.pf.network_pf",
    "lpf_contingency": "pypsa.contingency.network_lpf_contingency", **{f: "pypsa.graph." + f for f in ("graph", "incidence_matrix", "adjacency_matrix")},
    **{f: DS + f for f in ("get_committable_i", "get_extendable_i", "get_switchable_as_dense", "get_non_extendable_i", "get_active_assets")},
    "consistency_check": "pypsa.consistency.consistency_check"}
ON_SUB = {"lpf": "pypsa.pf.sub_network_lpf", "pf": "pypsa.pf.sub_network_pf", "find_bus_controls": "pypsa.pf.find_bus_controls", "find_slack_bus": "pypsa.pf.find_slack_bus",
          "calculate_Y": "pypsa.pf.calculate_Y", "calculate_PTDF": "pypsa.pf.calculate_PTDF", "calculate_B_H": "pypsa.pf.calculate_B_H", "calculate_BODF": "pypsa.contingency.calculate_BODF",
          **{f: "pypsa.graph." + f for f in ("graph", "incidence_matrix", "adjacency_matrix")}}
Prop("D01", "Short names do what they name", [
    surf(ACC + "__call__", "spec.api.optimize", roles=NEWACC, calls=[OPT + "optimize"]),
    *[surf(ACC + f, "spec.api." + f, roles=NEWACC, calls=[OPT + f]) for f in ("create_model", "assign_solution", "assign_duals", "post_processing")],
    *[surf(ACC + f, "spec.api." + f, roles=NEWACC, calls=[ABS + f]) for f in ABSTRACT],
    *[surf(CLACC + f, "spec.api." + f, roles={"self": "new:" + CLACC[:-1]}, calls=[CL + g for g in CLFUN]) for f in (
        "busmap_by_hac", "busmap_by_kmeans", "busmap_by_greedy_modularity", "cluster_spatially_by_hac", "cluster_spatially_by_kmeans", "cluster_spatially_by_greedy_modularity",
        "cluster_by_busmap", "get_clustering_from_busmap")],
    *[surf(NET + f, "spec.api." + f, roles=SELF, calls=["pypsa.plot.maps.interactive." + f]) for f in ("iplot", "explore")],
    surf(NET + "madd", "spec.api.madd", roles=SELF, calls=[NET + "add"]), surf(NET + "mremove", "spec.api.mremove", roles=SELF, calls=[NET + "remove"]),
    surf(NET + "__add__", "spec.api.plus", roles={"self": "net", "other": "other"}, calls=[IO + "merge"]),
    surf(NET + "__eq__", "spec.api.same", roles={"self": "net", "other": "other"}, values=[NET + "equals"]),
    *[Bound(NET + f, g) for f, g in ON_NETWORK.items()], *[Bound(SUBNET + f, g) for f, g in ON_SUB.items()],
    Bound(COMPS + "get_active_assets", "pypsa.components.descriptors.get_active_assets"),
])
Prop("N09", "Network attributes", [
    *[surf(NET + f + ".fget", "spec.api." + f, roles=SELF) for f in ("timesteps", "periods", "has_periods", "srid")],
    surf(NET + "to_crs", "spec.api.to_crs", roles=SELF), surf(NET + "crs.fset", "spec.api.set_crs", roles=SELF), surf(NET + "srid.fset", "spec.api.set_srid", roles=SELF),
])
Prop("O21", "Load shedding", [surf(ACC + "add_load_shedding", "spec.api.load_shedding", roles=NEWACC, calls=[NET + "add"])])
SUBC = "pypsa.components.abstract.SubNetworkComponents."
RAW = {"self": "a:pypsa.networks.Network"}
RAWSUB, RAWC = {"self": "a:pypsa.networks.SubNetwork"}, {"self": "a:pypsa.components.abstract.Components"}
Prop("N10", "Component tables", [
    surf("pypsa.networks.create_component_property", "spec.api.property_of"),
    *[surf(NET + f, "spec.api." + s, roles=RAW) for f, s in (("static", "table"), ("dynamic", "series"), ("df", "table"), ("pnl", "series"), ("component_attrs.fget", "every_series"),
      ("_initialize_component_sets", "component_sets"), ("_initialize_components", "components_init"), ("read_in_default_standard_types", "standard_types"),
      ("component", "one_kind"), ("iterate_components", "kinds"), ("branches", "all_branches"), ("passive_branches", "lines_and_transformers"), ("controllable_branches", "links_only"))],
    *[surf(SUBNET + f, "spec.api." + s, roles=RAWSUB) for f, s in (("n.fget", "network_of"), ("network.fget", "network_of"), ("components.fget", "part"), ("branches_i", "branch_labels"), ("branches", "branches_of"),
      ("static", "own_table"), ("dynamic", "own_series"), ("df", "own_table"), ("pnl", "own_series"), ("component", "one_kind"), ("iterate_components", "some_kinds"))],
    surf(SUBC + "__getattr__", "spec.api.asked", roles={"self": "a:" + SUBC[:-1]}),
    *[surf(COMPS + f, "spec.api." + s, roles=RAWC) for f, s in (("__getitem__", "item"), ("__setitem__", "set_item"), ("get", "default_item"), ("nominal_attr.fget", "nominal"), ("ports.fget", "ports_of"), ("units.fget", "units_of"), ("n_save.fget", "attached_network"))],
    surf(COMPS + "_get_data_containers", "spec.api.empty_tables"),
    surf("pypsa.components.common.as_components", "spec.api.find", unprim=["pypsa.components.common.as_components"]),
    surf("pypsa.components.components.Lines.calculate_line_length", "spec.api.line_length", roles={"self": "a:pypsa.components.components.Lines"}),
])

COMPAT = lambda q, s, **k: surf(q, "spec.compat." + s, **k)
DEP, ASA, GD, PA = "pypsa.statistics.deprecated.", "pypsa.statistics.abstract.AbstractStatisticsAccessor.", "pypsa.statistics.grouping.DeprecatedGroupers", "pypsa.plot.accessor.PlotAccessor"
CTYPE, OPTS = "pypsa.definitions.components.ComponentType", "pypsa._options.OptionsNode."
RENAMED = {**{q: {"network": "n"} for q in (
    ["pypsa.clustering.ClusteringAccessor.__init__", SUBNET + "__init__", "pypsa.contingency.network_lpf_contingency"]
    + ["pypsa.consistency.check_" + f for f in ("for_unknown_buses", "for_disconnected_buses", "for_unknown_carriers", "for_zero_impedances", "time_series", "static_power_attributes",
                                                "time_series_power_attributes", "assets", "investment_periods", "shapes", "nans_for_component_default_attrs")]
    + [DS + f for f in ("get_switchable_as_dense", "get_switchable_as_iter", "allocate_series_dataframes", "free_output_series_dataframes", "get_activity_mask", "get_bounds_pu", "update_linkports_component_attrs")]
    + ["pypsa.graph." + f for f in ("graph", "adjacency_matrix", "incidence_matrix")]
    + [IO + f for f in ("import_from_csv_folder", "export_to_csv_folder", "import_from_excel", "export_to_excel", "import_from_hdf5", "export_to_hdf5", "import_from_netcdf", "export_to_netcdf", "merge",
                        "import_from_pypower_ppc", "import_from_pandapower_net")]
    + ["pypsa.pf." + f for f in ("network_pf", "network_lpf", "apply_line_types", "apply_transformer_types", "apply_transformer_t_model", "calculate_dependent_values", "network_batch_lpf")])},
    "pypsa.plot.maps.static.plot": {"bus_norm": "bus_cmap_norm", "line_norm": "line_cmap_norm", "link_norm": "link_cmap_norm", "transformer_norm": "transformer_cmap_norm", "color_geomap": "geomap_colors"},
    **{"pypsa.statistics.expressions.StatisticsAccessor." + f: {"kind": "direction"} for f in ("energy_balance", "revenue")}}
Prop("D02", "Old names", [
    surf("pypsa.common.rename_deprecated_kwargs", "spec.compat.rename"),
    COMPAT("spec.compat.use_renaming", "renaming", calls=["pypsa.common.rename_deprecated_kwargs"], title="deprecated_kwargs"),
    COMPAT("spec.compat.use_common", "common_names", calls=["pypsa.common.rename_deprecated_kwargs"], title="deprecated_common_kwargs"),
    COMPAT("spec.compat.use_namespace", "namespace", title="deprecated_namespace"), COMPAT("spec.compat.use_grouper", "grouper", title="deprecated_grouper"),
    Renamed(RENAMED, {"pypsa.plot.maps.static.plot": "pypsa.plot.maps.static.MapPlotter.draw_map"}),
    *[COMPAT("pypsa.optimization.compat." + f, f, roles={"n": "net"}) for f in ("get_var", "define_variables", "define_constraints", "linexpr", "join_exprs")],
    COMPAT("pypsa.optimization.constraints.define_generators_constraints", "define_generators_constraints", calls=["pypsa.optimization.constraints.define_total_supply_constraints"]),
    COMPAT(IO + "import_components_from_dataframe", "import_components_from_dataframe", calls=[NET + "add"]),
    COMPAT(IO + "import_series_from_dataframe", "import_series_from_dataframe", calls=[IO + "_import_series_from_df"]),
    *[COMPAT(DEP + f, f, values=[ASA + g]) for f, g in (("get_grouping", "_get_grouping"), ("aggregate_timeseries", "_aggregate_timeseries"), ("filter_active_assets", "_filter_active_assets"),
                                                        ("filter_bus_carrier", "_filter_bus_carrier"))],
    *[COMPAT(GD + "." + f, f, roles={"self": "new:" + GD}) for f in (
        "get_carrier", "get_bus_carrier", "get_bus", "get_country", "get_unit", "get_name", "get_bus_and_carrier", "get_bus_unit_and_carrier", "get_name_bus_and_carrier", "get_country_and_carrier",
        "get_bus_and_carrier_and_bus_carrier", "get_carrier_and_bus_carrier")],
    *[COMPAT(f"pypsa.statistics.abstract.Parameters.{f}.f{g}", f"{g}_{f}", calls=[OPTS + "set_option"], values=[OPTS + "get_option"]) for f in ("drop_zero", "nice_names", "round") for g in ("get", "set")],
    COMPAT("pypsa.statistics.abstract.Parameters.set_parameters", "set_parameters", calls=[OPTS + "set_option"]),
    COMPAT("pypsa.clustering.spatial.Clustering.network.fget", "own_n", roles={"self": "a:pypsa.clustering.spatial.Clustering"}),
    COMPAT(CTYPE + ".type.fget", "own_category", roles={"self": "a:" + CTYPE}), COMPAT(CTYPE + ".attrs.fget", "own_defaults", roles={"self": "a:" + CTYPE}),
    *[COMPAT(COMPS + f + ".fget", "own_" + g, roles=RAWC) for f, g in (("type", "type"), ("attrs", "attrs"), ("df", "static"), ("pnl", "dynamic"))],
    COMPAT(PA + ".__call__", "legacy_plot", roles={"self": "new:" + PA}, calls=["pypsa.plot.maps.static.plot"]),
], floor=120)

CH = lambda q, s, **k: surf(q, "spec.charts." + s, **k)
SH, MW, PLT, SCH = "pypsa.statistics.expressions.StatisticHandler", "pypsa.common.MethodHandlerWrapper", "pypsa.plot.statistics.plotter.", "pypsa.plot.statistics.schema."
CG, MG = "pypsa.plot.statistics.charts.ChartGenerator", "pypsa.plot.statistics.maps.MapPlotGenerator"
ONE = lambda c: {"self": "a:" + c}
OVERVIEW = ("optimal_capacity", "installed_capacity", "supply", "withdrawal", "energy_balance", "transmission", "capacity_factor", "curtailment", "capex", "opex", "revenue", "market_value")
Prop("S08", "Overview of statistics", [
    CH(ST + ".__call__", "overview", roles={"self": "new:" + ST}, calls=[ST + "." + f for f in OVERVIEW]),
    CH(SH + ".__init__", "handler", roles=ONE(SH)), CH(SH + ".__call__", "handled", roles=ONE(SH)),
    CH(MW + ".__get__", "wrapped", roles=ONE(MW)), CH(MW + ".__call__", "decorated", roles=ONE(MW)), CH(MW + ".__init__", "decorator", roles=ONE(MW)),
    CH(GP + ".__getitem__", "chosen", roles={"self": "new:" + GP}, values=[GP + "._multi_grouper"]), CH(GP + ".add_grouper", "add_grouper", roles=ONE(GP)), CH(GP + ".__setitem__", "no_item", roles=ONE(GP))], floor=30)
SP_, SIP_ = PLT + "StatisticPlotter", PLT + "StatisticInteractivePlotter"
Prop("S09", "Charts of statistics", [
    *[CH(CG + "." + f, s, roles=ONE(CG), **k) for f, s, k in (("derive_statistic_parameters", "derived", {}), ("_validate", "has_values", {}), ("get_carrier_colors", "colors", {"values": [CG + ".get_carrier_labels"]}),
      ("get_carrier_labels", "labels", {}), ("_create_category_orders", "orders", {}))],
    CH(CG + "._to_long_format", "long_series", roles=ONE(CG), fixed={"data": TYPED("data", "pandas.Series")}, title="long format of a series"),
    CH(CG + "._to_long_format", "long_table", roles=ONE(CG), fixed={"data": TYPED("data", "pandas.DataFrame")}, title="long format of a table"),
    CH(MG + ".derive_statistic_parameters", "nothing_derived", roles=ONE(MG)), CH(SCH + "apply_parameter_schema", "applied"),
    CH(SP_ + ".__call__", "any_kind", roles=ONE(SP_), values=[SCH + "apply_parameter_schema"]), CH(SIP_ + ".__call__", "any_interactive_kind", roles=ONE(SIP_), values=[SCH + "apply_parameter_schema"]),
    CH(SP_ + "._chart", "chart", roles=ONE(SP_), values=[SCH + "apply_parameter_schema", CG + ".derive_statistic_parameters"], calls=[CG + ".plot"]),
    CH(SIP_ + "._chart", "interactive_chart", roles=ONE(SIP_), values=[SCH + "apply_parameter_schema", CG + ".derive_statistic_parameters"], calls=[CG + ".iplot"]),
    CH(SP_ + ".map", "shown_map", roles=ONE(SP_), values=[SCH + "apply_parameter_schema"], calls=[MG + ".plot"])], floor=28)

TY = lambda q, s, **k: surf(q, "spec.types." + s, **k)
PDICT, TP, CSTORE, RAWNET = "pypsa.definitions.structures.Dict.", "pypsa.components.types.", "pypsa.definitions.components.ComponentsStore.", {"self": "a:pypsa.networks.Network"}
Prop("T01", "Types of components", [
    TY(TP + "add_component_type", "register", fixed={"defaults_df": TYPED("defaults_df", "pandas.DataFrame")}), TY(TP + "_load_default_component_types", "load", calls=[TP + "add_component_type"]),
    TY(TP + "get", "get"), TY(CTYPE + ".__eq__", "same_type", roles=ONE(CTYPE)),
    *[TY(CSTORE + f, s, roles=ONE(CSTORE[:-1]), **k) for f, s, k in (("__getattr__", "store_get", {}), ("__delattr__", "store_del", {}), ("__contains__", "store_has", {}),
                                                                     ("__iter__", "stored", {"values": [OPTS + "get_option"]}))],
    *[TY(COMPS + f, s, roles=RAWC) for f, s in (("__init__", "data_init"), ("__setitem__", "data_set"), ("attached", "data_attached"), ("n_save", "data_network"))],
    TY(CSTORE + "__setattr__", "set_in_store", roles=ONE(CSTORE[:-1])), *[TY(PDICT + f, s, roles=ONE(PDICT[:-1])) for f, s in (("__setattr__", "set_in_dict"), ("__getattr__", "get_in_dict"), ("__delattr__", "del_in_dict"))],
    TY("pypsa.components.components.Component.__new__", "component", values=[TP + "get"]), TY("pypsa.components.common.as_components", "of_network")], floor=45)
Prop("T02", "Declared attributes and standard types", [Declared("component"), Declared("standard_types"), Declared("variables")], floor=380)
Prop("N11", "New networks", [
    TY(NET + "meta.fset", "set_meta", roles=RAWNET), TY(NET + "meta.fget", "get_meta", roles=RAWNET),
    TY(NET + "__init__", "new_network", roles=RAWNET, calls=[NET + f for f in ("_initialize_component_sets", "_initialize_components", "read_in_default_standard_types")]
       + [IO + f for f in ("import_from_hdf5", "import_from_netcdf", "import_from_excel", "import_from_csv_folder")])], floor=20)


# ------------------------------------------------------------ maps
MS, PI, RMAP = "pypsa.plot.maps.static.", "pypsa.plot.maps.interactive.", {"self": "a:pypsa.plot.maps.static.MapPlotter"}
MPL, MCOM = MS + "MapPlotter.", "pypsa.plot.maps.common."


def MAP(q, s, **k):
    return surf(q, "spec.maps." + s, **k)


Prop("P01", "Maps of networks", [
    *[MAP(MPL + f, s, roles=RMAP) for f, s in (
        ("__init__", "new_plotter"), ("x.fget", "get_x"), ("y.fget", "get_y"), ("boundaries.fget", "get_boundaries"), ("boundaries.fset", "set_boundaries_to"), ("area_factor.fset", "set_area_factor"),
        ("set_layout", "layout"), ("add_jitter", "jittered"), ("get_multiindex_buses", "pies"), ("get_singleindex_buses", "circles"), ("_flow_ds_from_arg", "flow_given"), ("get_branch_collection", "collection"),
        ("_get_branch_collection_lines", "branch_lines"), ("_get_branch_collection_patches", "branch_patches"), ("get_flow_collection", "flow_arrows"))],
    MAP(MPL + "set_boundaries", "extent", roles=RMAP, values=["pypsa.geo.compute_bbox", MPL + "set_layout"]),
    *[MAP(MPL + f, s) for f, s in (("_directed_flow", "arrows"), ("scaling_factor_from_area_contribution", "contribution"), ("aggregate_flow_by_connection", "between_buses"), ("flow_to_width", "width_of"),
                                   ("_dataframe_from_arguments", "arguments"))],
    MAP(MPL + "init_axis", "axis", roles=RMAP, calls=[MPL + "add_geomap_features"], values=[MPL + "set_layout", MPL + "set_boundaries"]),
    MAP(MPL + "draw_map", "draw", roles=RMAP, calls=[MPL + "init_axis"], values=[MPL + f for f in (
        "_flow_ds_from_arg", "get_branch_collection", "get_flow_collection", "get_singleindex_buses", "get_multiindex_buses", "_dataframe_from_arguments")] + [MS + "_apply_cmap", "pypsa.common._convert_to_series"]),
    MAP(MS + "_apply_cmap", "cmapped"), MAP(MS + "plot", "plot", calls=[MPL + "draw_map", MPL + "add_jitter"], values=[MPL + "__init__"]),
    MAP(MCOM + "apply_layouter", "placed"), MAP("pypsa.geo.compute_bbox", "bbox"), MAP("pypsa.geo.get_projected_area_factor", "projected")], floor=110)
Prop("P02", "Interactive maps and legends", [
    MAP(PI + "iplot", "interactive", values=[MCOM + "as_branch_series", MCOM + "apply_layouter"]), MAP(PI + "explore", "explored"), MAP(MCOM + "as_branch_series", "branch_series"),
    *[MAP(MS + f, s, values=["pypsa.geo.get_projected_area_factor"]) for f, s in (
        ("add_legend_lines", "legend_lines"), ("add_legend_patches", "legend_patches"), ("add_legend_circles", "legend_circles"), ("add_legend_semicircles", "legend_semicircles"), ("add_legend_arrows", "legend_arrows"),
        ("round_to_significant_digits", "significant"), ("scaled_legend_label", "label"))],
    MAP(MS + "get_legend_representatives", "representatives", values=[MS + "round_to_significant_digits", MS + "scaled_legend_label"])], floor=45)

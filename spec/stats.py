"""Reference snippets of the statistics."""
from collections.abc import Sequence

import pandas as pd
from inspect import signature
from pypsa.common import pass_empty_series_if_keyerror
from pypsa.descriptors import bus_carrier_unit
from pypsa._options import options
from pypsa.statistics.grouping import groupers
from pypsa.optimization.optimize import lookup
from pypsa.statistics.expressions import get_transmission_branches

NOM = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom"}



def named(df, name, unit):
    df.attrs["name"] = name
    df.attrs["unit"] = unit
    return df


def hours(n, c):
    """weights of the snapshots for a component"""
    w = n.snapshot_weightings
    if c == "Generator":
        return w["generators"]
    return w["stores"] if c in ("StorageUnit", "Store") else w["objective"]


def sign_of(n, c):
    """power counted as positive when fed into the bus"""
    return -1.0 if c in ("Line", "Link", "Transformer") else n.static(c).get("sign", 1.0)


def per_port(n, c, port):
    """output at the port per unit of nominal power"""
    table = n.static(c)
    ones = pd.Series(1, index=table.index)
    if port == "":
        return ones
    if port == "0":
        return -ones
    return table.get("efficiency" if port == "1" else f"efficiency{port}", ones)


def capex(self, comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None, cost_attribute="capital_cost"):
    """optimal capacity times capital cost"""
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        return n.static(c)[f"{NOM[c]}_opt"] * n.static(c)[cost_attribute]

    return named(self._aggregate_components(value, agg=aggregate_groups, comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components,
                                    at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, drop_zero=drop_zero, round=round), "Capital Expenditure", "currency")


def installed_capex(self, comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None, cost_attribute="capital_cost"):
    """installed capacity times capital cost"""
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        return n.static(c)[NOM[c]] * n.static(c)[cost_attribute]

    return named(self._aggregate_components(value, agg=aggregate_groups, comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components,
                                    at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, drop_zero=drop_zero, round=round), "Capital Expenditure Fixed", "currency")


def expanded_capex(self, comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None, cost_attribute="capital_cost"):
    """difference of both"""
    choice = dict(comps=comps, aggregate_groups=aggregate_groups, aggregate_across_components=aggregate_across_components, groupby=groupby,
                  at_port=at_port, carrier=carrier, bus_carrier=bus_carrier, nice_names=nice_names, drop_zero=drop_zero, round=round, cost_attribute=cost_attribute)
    return named(self.capex(**choice).sub(self.installed_capex(**choice), fill_value=0), "Capital Expenditure Expanded", "currency")


def optimal_capacity(self, comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=None,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None, storage=False):
    """capacity as seen from the ports"""
    if storage:
        comps = ("Store", "StorageUnit")
    if bus_carrier and at_port is None:
        at_port = True
    
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        factor = per_port(n, c, port)
        if not at_port:
            factor = abs(factor)
        size = n.static(c)[f"{NOM[c]}_opt"] * factor
        return size * n.static(c).max_hours if storage and c == "StorageUnit" else size

    return named(self._aggregate_components(value, agg=aggregate_groups, comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components,
                                    at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, drop_zero=drop_zero, round=round), "Optimal Capacity", "MW")


def installed_capacity(self, comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=None,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None, storage=False):
    """capacity as seen from the ports"""
    if storage:
        comps = ("Store", "StorageUnit")
    if bus_carrier and at_port is None:
        at_port = True
    
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        factor = per_port(n, c, port)
        if not at_port:
            factor = abs(factor)
        size = n.static(c)[NOM[c]] * factor
        return size * n.static(c).max_hours if storage and c == "StorageUnit" else size

    return named(self._aggregate_components(value, agg=aggregate_groups, comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components,
                                    at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, drop_zero=drop_zero, round=round), "Installed Capacity", "MW")


def expanded_capacity(self, comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=None,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None):
    """increase of capacity"""
    choice = dict(comps=comps, aggregate_groups=aggregate_groups, aggregate_across_components=aggregate_across_components, groupby=groupby,
                  at_port=at_port, carrier=carrier, bus_carrier=bus_carrier, nice_names=nice_names, drop_zero=drop_zero, round=round)
    after = self.optimal_capacity(**choice)
    before = self.installed_capacity(**choice).reindex(after.index, fill_value=0)
    return named(after.sub(before).where(after.abs() > before.abs(), 0), "Expanded Capacity", "MW")


WHICH = {"Generator": "p", "Link": "p", "Store": "p", "StorageUnit": "p_dispatch"}


def opex(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None, cost_types=None):
    """marginal, quadratic, storage, spillage, start-up, shut-down and stand-by costs"""
    if cost_types is None:
        kinds = ["marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage", "spill_cost", "start_up_cost", "shut_down_cost", "stand_by_cost"]
    elif isinstance(cost_types, str):
        kinds = [cost_types]
    else:
        kinds = list(cost_types)
    
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        weights = hours(n, c)
        parts = []
        for kind in ("marginal_cost", "marginal_cost_storage", "marginal_cost_quadratic", "spill_cost"):
            if kind in kinds and kind in n.static(c):
                result = n.dynamic(c)[lookup.query(kind).loc[c].index.item()]
                amount = result * result if kind == "marginal_cost_quadratic" else result
                parts.append(self._aggregate_timeseries(amount * n.get_switchable_as_dense(c, kind), weights, agg=aggregate_time))
        committable = n.get_committable_i(c)
        for kind, attr in (("start_up_cost", "start_up"), ("shut_down_cost", "shut_down"), ("stand_by_cost", "status")):
            if kind in kinds and kind in n.static(c) and not committable.empty:
                amount = n.dynamic(c)[attr].loc[:, committable] * n.get_switchable_as_dense(c, kind, inds=committable)
                w = weights if kind == "stand_by_cost" else pd.Series(1.0, index=weights.index)
                parts.append(self._aggregate_timeseries(amount, w, agg=aggregate_time))
        return pd.concat(parts).groupby(level=0).sum() if parts else pd.Series()

    return named(self._aggregate_components(value, agg=aggregate_groups, comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components,
                                    at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, drop_zero=drop_zero, round=round), "Operational Expenditure", "currency")


def system_cost(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None):
    """all costs"""
    choice = dict(comps=comps, aggregate_groups=aggregate_groups, aggregate_across_components=aggregate_across_components, groupby=groupby,
                  at_port=at_port, carrier=carrier, bus_carrier=bus_carrier, nice_names=nice_names, drop_zero=drop_zero, round=round)
    return named(self.capex(**choice).add(self.opex(aggregate_time=aggregate_time, **choice), fill_value=0), "System Cost", "currency")


def supply(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=True,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None):
    """one side of the energy balance"""
    return named(self.energy_balance(comps=comps, aggregate_groups=aggregate_groups, aggregate_across_components=aggregate_across_components, groupby=groupby,
                  at_port=at_port, carrier=carrier, bus_carrier=bus_carrier, nice_names=nice_names, drop_zero=drop_zero, round=round, aggregate_time=aggregate_time, direction="supply"), "Supply", "carrier dependent")


def withdrawal(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=True,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None):
    """one side of the energy balance"""
    return named(self.energy_balance(comps=comps, aggregate_groups=aggregate_groups, aggregate_across_components=aggregate_across_components, groupby=groupby,
                  at_port=at_port, carrier=carrier, bus_carrier=bus_carrier, nice_names=nice_names, drop_zero=drop_zero, round=round, aggregate_time=aggregate_time, direction="withdrawal"), "Withdrawal", "carrier dependent")


def transmission(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None):
    """flow over branches between buses of the same carrier"""
    if comps is None:
        comps = {"Line", "Link", "Transformer"}
    between = get_transmission_branches(self._n, bus_carrier)
    
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        return self._aggregate_timeseries(n.dynamic(c)[f"p{port}"][between.get_loc_level(c)[1]], hours(n, c), agg=aggregate_time)

    return named(self._aggregate_components(value, agg=aggregate_groups, comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components,
                                    at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, drop_zero=drop_zero, round=round), "Transmission", "carrier dependent")


def energy_balance(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby=["carrier", "bus_carrier"], at_port=True,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None, direction=None):
    """power fed in minus power taken out"""
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        power = sign_of(n, c) * n.dynamic(c)[f"p{port}"]
        if direction == "supply":
            power = power.clip(lower=0)
        elif direction == "withdrawal":
            power = -power.clip(upper=0)
        return self._aggregate_timeseries(power, hours(n, c), agg=aggregate_time)

    return named(self._aggregate_components(value, agg=aggregate_groups, comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components,
                                    at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, drop_zero=drop_zero, round=round), "Energy Balance", bus_carrier_unit(self._n, bus_carrier))


def curtailment(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None):
    """available minus dispatched power"""
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        rest = n.get_switchable_as_dense(c, "p_max_pu") * n.static(c).p_nom_opt - n.dynamic(c).p
        return self._aggregate_timeseries(rest.clip(lower=0), hours(n, c), agg=aggregate_time)

    return named(self._aggregate_components(value, agg=aggregate_groups, comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components,
                                    at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, drop_zero=drop_zero, round=round), "Curtailment", "MWh")


def capacity_factor(self, comps=None, aggregate_time="mean", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None):
    """mean operation per optimal capacity"""
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        if c in ("Line", "Link", "Transformer"):
            operation = n.dynamic(c).p0
        else:
            operation = n.dynamic(c).e if c == "Store" else n.dynamic(c).p
        return self._aggregate_timeseries(operation.abs(), hours(n, c), agg=aggregate_time)

    choice = dict(comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components, at_port=at_port, carrier=carrier, bus_carrier=bus_carrier,
                  nice_names=nice_names, drop_zero=drop_zero, round=round)
    used = self._aggregate_components(value, agg=aggregate_groups, **choice)
    size = self.optimal_capacity(aggregate_groups=aggregate_groups, **choice)
    return named(used.div(size.reindex(used.index), axis=0), "Capacity Factor", "p.u.")


def revenue(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=True,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None, direction=None):
    """power fed in at the price of the bus"""
    @pass_empty_series_if_keyerror
    def value(n, c, port):
        power = sign_of(n, c) * n.dynamic(c)[f"p{port}"]
        buses = n.static(c)[f"bus{port}"][power.columns]
        prices = n.buses_t.marginal_price.reindex(columns=buses, fill_value=0).values
        if direction is not None:
            if direction == "input":
                power = power.clip(upper=0)
            elif direction == "output":
                power = power.clip(lower=0)
            else:
                raise ValueError("direction")
        return self._aggregate_timeseries(power * prices, hours(n, c), agg=aggregate_time)

    return named(self._aggregate_components(value, agg=aggregate_groups, comps=comps, groupby=groupby, aggregate_across_components=aggregate_across_components,
                                    at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, drop_zero=drop_zero, round=round), "Revenue", "currency")


def market_value(self, comps=None, aggregate_time="mean", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=True,
          carrier=None, bus_carrier=None, nice_names=None, drop_zero=None, round=None):
    """revenue per energy supplied"""
    choice = dict(comps=comps, aggregate_groups=aggregate_groups, aggregate_across_components=aggregate_across_components, groupby=groupby,
                  at_port=at_port, carrier=carrier, bus_carrier=bus_carrier, nice_names=nice_names, drop_zero=drop_zero, round=round, aggregate_time=aggregate_time)
    return named(self.revenue(**choice) / self.supply(**choice), "Market Value", "currency / MWh")


def over_time(obj, weights, agg="sum"):
    """weighted sum, weighted mean per period, any other aggregation, or all snapshots"""
    if not agg:
        return obj.T if isinstance(obj, pd.DataFrame) else obj
    if agg == "mean":
        if isinstance(weights.index, pd.MultiIndex):
            weights = weights.groupby(level=0).transform(lambda w: w / w.sum())
        else:
            weights = weights / weights.sum()
    elif agg != "sum":
        return obj.agg(agg)
    if isinstance(weights.index, pd.MultiIndex):
        return obj.multiply(weights, axis=0).groupby(level=0).sum().T
    return weights @ obj


def active_only(self, n, c, obj):
    """assets that are active, per investment period if there are some"""
    if isinstance(obj, pd.DataFrame) or "snapshot" in getattr(obj, "dims", []):
        return obj
    if not isinstance(n.snapshots, pd.MultiIndex):
        active = n.get_active_assets(c)
        return obj.loc[active.index[active].intersection(obj.index)]
    parts = {}
    for period in n.investment_periods:
        active = n.get_active_assets(c, period)
        parts[period] = obj.loc[active.index[active].intersection(obj.index)]
    return pd.concat(parts, axis=1)


def at_carrier(self, n, c, port, bus_carrier, obj):
    """assets whose port is at a bus of the carrier"""
    if bus_carrier is None:
        return obj
    ports = n.static(c).loc[obj.index, f"bus{port}"]
    carriers = ports.map(n.buses.carrier)
    if isinstance(bus_carrier, str):
        if bus_carrier in n.buses.carrier.unique():
            wanted = carriers == bus_carrier
        else:
            wanted = carriers.str.contains(bus_carrier, regex=True)
    elif isinstance(bus_carrier, list):
        wanted = carriers.isin(bus_carrier)
    else:
        raise ValueError("bus_carrier")
    wanted = wanted.where(wanted.notnull(), False)
    return obj.loc[ports.index[wanted]]


def of_carrier(self, n, c, carrier, obj):
    """assets of the carrier"""
    if carrier is None or "carrier" not in n.static(c):
        return obj
    carriers = n.static(c).loc[obj.index, "carrier"]
    if isinstance(carrier, str):
        wanted = carriers == carrier if carrier in carriers.unique() else carriers.str.contains(carrier)
    elif isinstance(carrier, Sequence):
        wanted = carriers.isin(carrier)
    else:
        raise ValueError("carrier")
    return obj.loc[carriers.index[wanted]]


def options_applied(self, df, nice_names, drop_zero, round):
    """rounded, without zeros"""
    digits = options.params.statistics.round if round is None else round
    if digits is not None:
        df = df.round(digits)
    if options.params.statistics.drop_zero if drop_zero is None else drop_zero:
        df = df[df != 0]
    return df


def across(self, df, agg):
    return df.groupby(level=[name for name in df.index.names if name != "component"]).agg(agg)


def joined_ports(self, values, agg):
    """ports of a component, values of the same group aggregated"""
    df = pd.concat(values, copy=False) if len(values) > 1 else values[0]
    return df if df.index.is_unique else df.groupby(level=df.index.names).agg(agg)


def joined_components(self, d, is_one_component):
    if d == {}:
        return pd.Series([], index=pd.MultiIndex.from_tuples([], names=["component", "name"]))
    first = next(iter(d))
    if is_one_component:
        return d[first]
    names = [x.index.names for x in d.values()]
    if all(x == names[0] for x in names):
        levels = ["component"] + names[0]
    elif all(len(x) == 1 for x in names):
        levels = ["component", "name"]
    else:
        raise AssertionError("names")
    return pd.concat(d, names=levels)


def how_to_group(self, n, c, groupby, port=None, nice_names=False):
    by = None
    if callable(groupby):
        try:
            by = groupby(n, c, port=port, nice_names=nice_names)
        except TypeError:
            by = groupby(n, c, nice_names=nice_names)
    elif isinstance(groupby, str) or isinstance(groupby, list):
        by = groupers[groupby](n, c, port=port, nice_names=nice_names)
    elif groupby is not False:
        raise ValueError("groupby")
    return dict(by=by, level=None)


def over_components(self, func, agg="sum", comps=None, groupby="carrier", aggregate_across_components=False, at_port=None,
                    bus_carrier=None, carrier=None, nice_names=True, drop_zero=None, round=None):
    """the values of every component and port, filtered, grouped and put together"""
    n = self._n
    one = isinstance(comps, str)
    kinds = [comps] if one else comps
    if kinds is None:
        kinds = n.branch_components | n.one_port_components
    names = options.params.statistics.nice_names if nice_names is None else nice_names
    d = {}
    for c in kinds:
        if n.static(c).empty:
            continue
        ports = [str(col)[3:] for col in n.static(c) if str(col).startswith("bus")]
        if not at_port:
            ports = [ports[0]]
        found = []
        for port in ports:
            vals = func(n, c, port)
            if vals.empty:
                continue
            vals = self._filter_active_assets(n, c, vals)
            vals = self._filter_bus_carrier(n, c, port, bus_carrier, vals)
            vals = self._filter_carrier(n, c, carrier, vals)
            if vals.empty:
                continue
            if groupby is not False:
                by = self._get_grouping(n, c, groupby, port=port, nice_names=names)
                vals = self._aggregate_components_groupby(vals, by, agg)
            found.append(vals)
        if found:
            d[c] = self._aggregate_components_concat_values(found, agg)
    df = self._aggregate_components_concat_data(d, one)
    df = self._apply_option_kwargs(df, drop_zero=drop_zero, round=round, nice_names=names)
    return self._aggregate_across_components(df, agg) if aggregate_across_components else df


def grouped(self, vals, grouping, agg):
    return vals.groupby(by=grouping["by"], level=grouping["level"]).agg(agg)


# ------------------------------------------------------------ groups
def by_carrier(self, n, c, nice_names=True):
    table = n.static(c)
    label = table.get("carrier", pd.Series("", index=table.index)).rename("carrier")
    if nice_names:
        nice = n.carriers.nice_name
        label = label.replace(nice[nice != ""]).replace("", "-")
    return label


def by_bus_carrier(self, n, c, port="", nice_names=True):
    return n.static(c)["bus" + port].map(self.carrier(n, "Bus", nice_names=nice_names)).rename("bus_carrier")


def by_bus(self, n, c, port=""):
    return n.static(c)["bus" + port].rename("bus")


def by_country(self, n, c, port=""):
    return n.static(c)["bus" + port].map(n.buses.country).rename("country")


def by_location(self, n, c, port=""):
    return n.static(c)["bus" + port].map(n.buses.location).rename("location")


def by_unit(self, n, c, port=""):
    return n.static(c)["bus" + port].map(n.buses.unit).rename("unit")


def by_name(self, n, c):
    return n.static(c).index.to_series().rename("name")


def by_attribute(self, n, c, key):
    try:
        return n.static(c)[key].rename(key)
    except KeyError:
        raise ValueError("unknown grouper")


def one_or_many(self, keys):
    """one label per asset and key; a single key gives a single series"""
    single = isinstance(keys, str) or callable(keys)

    def label(n, c, port="", nice_names=False):
        found = []
        for key in (keys,) if single else keys:
            if isinstance(key, str) and key not in self.list_groupers():
                found.append(self._get_generic_grouper(n, c, key))
                continue
            method = self.list_groupers()[key] if isinstance(key, str) else key
            options = {}
            if "port" in signature(method).parameters:
                options["port"] = port
            if "nice_names" in signature(method).parameters:
                options["nice_names"] = nice_names
            found.append(method(n, c, **options))
        return found[0] if single else found

    return label


def transmission_branches(n, bus_carrier=None):
    """branches with at least two ports at buses of one of the carriers"""
    found = {}
    for c in n.branch_components:
        at = n.static(c).filter(like="bus").apply(lambda ds: ds.map(n.buses.carrier))
        wanted = n.buses.carrier.unique() if bus_carrier is None else [bus_carrier] if isinstance(bus_carrier, str) else bus_carrier
        names = set()
        for carrier in wanted:
            count = at.eq(carrier).astype(int).sum(axis=1)
            names |= set(count[count > 1].index)
        found[c] = pd.Index(names)
    return pd.MultiIndex.from_tuples([(c, i) for c, idx in found.items() for i in idx], names=["component", "name"])


def transmission_carriers(n, bus_carrier=None):
    branches = get_transmission_branches(n, bus_carrier)
    found = {}
    for c in branches.unique(0):
        names = branches[branches.get_loc(c)].get_level_values(1)
        found[c] = n.static(c).carrier[names].unique()
    return pd.MultiIndex.from_tuples([(c, i) for c, idx in found.items() for i in idx], names=["component", "carrier"])

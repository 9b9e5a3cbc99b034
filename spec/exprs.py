"""Reference snippets of the expressions over model variables."""
import linopy as ln
import numpy as np
import pandas as pd
from linopy import LinearExpression
from xarray import DataArray

from pypsa.common import pass_none_if_keyerror
from pypsa.optimization.expressions import check_if_empty
from pypsa.statistics import get_transmission_branches

NOM = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom"}
FLOW = {"Generator": "p", "Line": "s", "Transformer": "s", "Link": "p", "Store": "p"}
COSTLY = {"Generator": "p", "Link": "p", "Store": "p", "StorageUnit": "p_dispatch"}


def hours(n, c):
    """weights of the snapshots for a component"""
    w = n.snapshot_weightings
    if c == "Generator":
        return w["generators"]
    return w["stores"] if c in ("StorageUnit", "Store") else w["objective"]


def per_port(n, c, port, dynamic=False):
    """what reaches the bus at the port per unit of the variable"""
    table = n.static(c)
    ones = pd.Series(1, index=table.index)
    if port == "":
        return ones
    if port == "0":
        return -ones
    key = "efficiency" if port == "1" else f"efficiency{port}"
    if dynamic and key in table:
        return n.get_switchable_as_dense(c, key)
    return table.get(key, ones)


def flow(self, c):
    """power of the assets: the variable, net dispatch of storage units, given loads"""
    m = self._n.model
    if c == "Load":
        return LinearExpression(self._n.get_switchable_as_dense(c, "p_set"), m)
    if c == "StorageUnit":
        return m.variables["StorageUnit-p_dispatch"] - m.variables["StorageUnit-p_store"]
    return m.variables[f"{c}-{FLOW[c]}"]


def size(n, c, fixed):
    """nominal value: the variable of extendable assets, the given value of the others"""
    var = n.model.variables[f"{c}-{NOM[c]}"].rename({f"{c}-ext": c})
    if fixed:
        var = var + n.static(c)[NOM[c]][~n.static(c)[f"{NOM[c]}_extendable"]]
    return var


def capex(self, comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
          bus_carrier=None, carrier=None, nice_names=None, cost_attribute="capital_cost", include_non_extendable=True):
    """capacity times cost"""
    @pass_none_if_keyerror
    def value(n, c, port):
        cap = size(n, c, include_non_extendable)
        return cap * n.static(c)[cost_attribute][cap.indexes[c]]

    return self._aggregate_components(value, comps=comps, agg=aggregate_groups, aggregate_across_components=aggregate_across_components,
                                      groupby=groupby, at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names)


def capacity(self, comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=None,
             bus_carrier=None, carrier=None, storage=False, nice_names=None, include_non_extendable=True):
    """capacity as seen from the ports"""
    if storage:
        comps = ("Store", "StorageUnit")
    if bus_carrier and at_port is None:
        at_port = True

    @pass_none_if_keyerror
    def value(n, c, port):
        cap = size(n, c, include_non_extendable)
        factor = per_port(n, c, port)[cap.indexes[c]]
        res = cap * (factor if at_port else abs(factor))
        return res * n.static(c).max_hours if storage and c == "StorageUnit" else res

    return self._aggregate_components(value, comps=comps, agg=aggregate_groups, aggregate_across_components=aggregate_across_components,
                                      groupby=groupby, at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names)


def opex(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
         bus_carrier=None, carrier=None, nice_names=None):
    """dispatch times marginal cost"""
    @pass_none_if_keyerror
    def value(n, c, port):
        cost = n.model.variables[f"{c}-{COSTLY[c]}"] * n.get_switchable_as_dense(c, "marginal_cost")
        return self._aggregate_timeseries(cost, hours(n, c), agg=aggregate_time)

    return self._aggregate_components(value, comps=comps, agg=aggregate_groups, aggregate_across_components=aggregate_across_components,
                                      groupby=groupby, at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names)


def transmission(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
                 bus_carrier=None, carrier=None, nice_names=None):
    """what branches between buses of the carrier bring to the bus at the port"""
    if comps is None:
        comps = self._n.branch_components
    between = get_transmission_branches(self._n, bus_carrier)

    @pass_none_if_keyerror
    def value(n, c, port):
        p = flow(self, c)
        idx = between.get_loc_level(c)[1].rename(c)
        return self._aggregate_timeseries(p.loc[:, idx] * per_port(n, c, port, True)[idx], hours(n, c), agg=aggregate_time)

    return self._aggregate_components(value, comps=comps, agg=aggregate_groups, aggregate_across_components=aggregate_across_components,
                                      groupby=groupby, at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names)


def energy_balance(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby=["carrier", "bus_carrier"], at_port=True,
                   bus_carrier=None, carrier=None, nice_names=None, kind=None):
    """what the assets bring to the bus at the port"""
    @pass_none_if_keyerror
    def value(n, c, port):
        p = flow(self, c)
        factor = DataArray(per_port(n, c, port, True) * n.static(c).get("sign", 1.0))
        if kind == "supply":
            factor = factor.clip(min=0)
        elif kind == "withdrawal":
            factor = -factor.clip(max=0)
        elif kind is not None:
            raise ValueError("unknown kind")
        return self._aggregate_timeseries(p.where(factor != 0) * factor, hours(n, c), agg=aggregate_time)

    return self._aggregate_components(value, comps=comps, agg=aggregate_groups, aggregate_across_components=aggregate_across_components,
                                      groupby=groupby, at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names)


def supply(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby=["carrier", "bus_carrier"], at_port=True,
           bus_carrier=None, carrier=None, nice_names=None):
    return self.energy_balance(comps=comps, aggregate_time=aggregate_time, aggregate_groups=aggregate_groups, aggregate_across_components=aggregate_across_components,
                               groupby=groupby, at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, kind="supply")


def withdrawal(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby=["carrier", "bus_carrier"], at_port=True,
               bus_carrier=None, carrier=None, nice_names=None):
    return self.energy_balance(comps=comps, aggregate_time=aggregate_time, aggregate_groups=aggregate_groups, aggregate_across_components=aggregate_across_components,
                               groupby=groupby, at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names, kind="withdrawal")


def curtailment(self, comps=None, aggregate_time="sum", aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False,
                bus_carrier=None, carrier=None, nice_names=None):
    """available power not used"""
    @pass_none_if_keyerror
    def value(n, c, port):
        cap = size(n, c, True)
        idx = cap.indexes[c]
        share = DataArray(n.get_switchable_as_dense(c, "p_max_pu")[idx])
        unused = (cap - flow(self, c).loc[:, idx] / share) * share
        return self._aggregate_timeseries(unused, hours(n, c), agg=aggregate_time)

    return self._aggregate_components(value, comps=comps, agg=aggregate_groups, aggregate_across_components=aggregate_across_components,
                                      groupby=groupby, at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names)


def operation(self, comps=None, aggregate_time="mean", aggregate_groups="sum", aggregate_across_components=False, at_port=False, groupby="carrier",
              bus_carrier=None, carrier=None, nice_names=None):
    """power of the assets"""
    @pass_none_if_keyerror
    def value(n, c, port):
        return self._aggregate_timeseries(flow(self, c), hours(n, c), agg=aggregate_time)

    return self._aggregate_components(value, comps=comps, agg=aggregate_groups, aggregate_across_components=aggregate_across_components,
                                      groupby=groupby, at_port=at_port, bus_carrier=bus_carrier, carrier=carrier, nice_names=nice_names)


# ------------------------------------------------------------ how the parts are put together
def grouping(self, n, c, groupby, port=None, nice_names=False):
    """the labels of the groups as a table, together with the kind of component"""
    by = AbstractStatisticsAccessor._get_grouping(self, n, c, groupby, port, nice_names)["by"]
    if isinstance(by, list):
        table = pd.concat(by, axis=1)
    elif isinstance(by, pd.Series):
        table = by.to_frame()
    elif groupby is False:
        table = pd.DataFrame(index=n.static(c).index)
    else:
        table = by
    table.insert(0, "component", c)
    return table.rename_axis(c)


def weighted(expr, weights, agg):
    if agg != "sum":
        raise ValueError("not supported")
    if isinstance(weights.index, pd.MultiIndex):
        return expr.multiply(weights, axis=0).groupby(level=0).sum().T
    return expr @ weights


def skipped(self, vals):
    return vals is None or (not np.prod(vals.shape) and (vals.const == 0).all())


def grouped(self, vals, grouping, agg):
    return vals.groupby(grouping).sum()


def joined_ports(self, exprs, agg):
    res = ln.merge(exprs)
    index = res.indexes[res.dims[0]]
    if not index.is_unique:
        if agg != "sum":
            raise ValueError("not supported")
        res = res.groupby(pd.DataFrame(list(index), columns=index.names)).sum()
    return res


def joined_components(self, res, is_one_component):
    if res == {}:
        return LinearExpression(None, self._n.model)
    if is_one_component:
        kind = next(iter(res))
        return res[kind].loc[kind]
    return ln.merge(list(res.values()), dim="group")


def unchanged(self, expr, nice_names, drop_zero, round):
    return expr


def across(self, expr, agg):
    if agg != "sum":
        raise ValueError("not supported")
    if check_if_empty(expr):
        return expr
    return expr.groupby(expr.indexes["group"].to_frame().drop(columns="component").squeeze()).sum()


from pypsa.statistics.abstract import AbstractStatisticsAccessor

"""Reference snippets of the helpers that look attributes up: series where given, static values elsewhere."""
from itertools import repeat

import numpy as np
import pandas as pd
from pypsa.descriptors import expand_series, get_switchable_as_dense


def labels(n, values, network_attribute, force_subset=True):
    """the values as labels of the network, all of them by default"""
    known = getattr(n, network_attribute)
    if values is None:
        chosen = known
    elif pd.api.types.is_list_like(values):
        chosen = pd.Index(values)
    else:
        chosen = pd.Index([values])
    if force_subset and not chosen.isin(known).all():
        raise ValueError("unknown label")
    return chosen


def per_snapshot(n, component, attr, snapshots, inds=None):
    """one value per asset and snapshot"""
    static = n.static(component)
    series = n.dynamic(component)[attr]
    names = static.index
    varying = series.columns
    constant = names.difference(varying)
    if inds is not None:
        wanted = pd.Index(inds)
        names, varying, constant = wanted.intersection(names), wanted.intersection(varying), wanted.intersection(constant)
    if len(varying) == 0:
        return repeat(static.loc[constant, attr], len(snapshots))
    both = constant.append(varying)
    sorted_already = len(both) == len(names) and (both == names).all()

    def values(sn):
        here = pd.concat([static.loc[constant, attr], series.loc[sn, varying]])
        return here if sorted_already else here.reindex(names)

    return (values(sn) for sn in snapshots)


def allocate(n, series):
    """a column per asset, new ones filled with the default"""
    for kind, attrs in series.items():
        for attr in attrs:
            n.dynamic(kind)[attr] = n.dynamic(kind)[attr].reindex(
                columns=n.static(kind).index, fill_value=n.components[kind]["attrs"].at[attr, "default"])


def free(n, components=None):
    """empty results"""
    for kind in n.all_components if components is None else components:
        attrs = n.components[kind]["attrs"]
        for attr in attrs.index[attrs["varying"] & (attrs["status"] == "Output")]:
            n.dynamic(kind)[attr] = pd.DataFrame(index=n.snapshots, columns=[])


NOM = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom"}


def extendable(n, c):
    static = n.static(c)
    return static.index[static[NOM[c] + "_extendable"]]


def non_extendable(n, c):
    static = n.static(c)
    return static.index[~static[NOM[c] + "_extendable"]]


def committable(n, c):
    static = n.static(c)
    return static.index[static["committable"]] if "committable" in static else pd.Index([])


def bounds(n, c, sns, index=None, attr=None):
    """lower and upper limit per unit of capacity"""
    nom = NOM[c]
    upper = get_switchable_as_dense(n, c, nom.replace("nom", "max_pu"), sns)
    if c in ("Line", "Transformer"):
        lower = -upper
    elif c == "StorageUnit":
        lower = pd.DataFrame(0, upper.index, upper.columns)
        if attr == "p_store":
            upper = -get_switchable_as_dense(n, c, nom.replace("nom", "min_pu"), sns)
        elif attr == "state_of_charge":
            hours = n.static(c).max_hours
            upper = expand_series(hours, sns).T
            lower = pd.DataFrame(0, *upper.axes)
    else:
        lower = get_switchable_as_dense(n, c, nom.replace("nom", "min_pu"), sns)
    if index is None:
        return lower, upper
    return lower.reindex(columns=index), upper.reindex(columns=index)


def linkports(n, where=None):
    """the ports of links beyond the first two"""
    where = n.links.columns if where is None else where
    return [c[3:] for c in where if c.startswith("bus") and c not in ("bus0", "bus1")]


def unit(n, bus_carrier):
    """the common unit of the buses of the carriers"""
    if bus_carrier is None:
        return "carrier dependent"
    carriers = [bus_carrier] if isinstance(bus_carrier, str) else bus_carrier
    if set(carriers) - set(n.buses.carrier.unique()):
        raise ValueError("unknown carrier")
    units = n.buses[n.buses.carrier.isin(carriers)].unit.unique()
    if len(units) > 1:
        return "carrier dependent"
    return units.item()


def expand(ser, columns):
    """the series in every column"""
    return ser.to_frame(columns[0]).reindex(columns=columns).ffill(axis=1)


def ports(self):
    return [str(c)[3:] for c in self.static if str(c).startswith("bus")]


def units(self):
    unit = self.defaults.unit
    return unit[unit.notnull()].to_frame()


def nominal(self):
    if self.ctype.name not in NOM:
        raise AttributeError("no nominal attribute")
    return NOM[self.ctype.name]


def nominal_table(self):
    return NOM[self.ctype.name]


def components_of(n, value):
    """the components object of a name, an alias or an attached components object"""
    from pypsa.deprecations import COMPONENT_ALIAS_DICT
    if isinstance(value, str):
        return getattr(n.components, COMPONENT_ALIAS_DICT.get(value, value))
    raise TypeError("neither")


def sub_lookup(self):
    """what a sub-network shows of the tables of a component"""
    net, name = self.n, self.name

    def inside(kind):
        table = net.static(kind)
        if kind in ("Bus", "Line", "Transformer"):
            return table[table.sub_network == name]
        if kind in ("Generator", "StorageUnit", "Store", "Load", "ShuntImpedance"):
            buses = net.buses.index[net.buses.sub_network == name]
            return table[table.bus.isin(buses)]
        raise ValueError("not part of a sub-network")

    def look(key, c):
        if key == "static":
            return inside(c.name)
        if key == "dynamic":
            rows = inside(c.name).index
            return {attr: series[rows.intersection(series.columns)] for attr, series in net.dynamic(c.name).items()}
        return c[key]

    return look


def sub_branches_i(self, active_only=False):
    """type and name of the lines and transformers of the sub-network"""
    types, names = [], []
    for c in self.iterate_components({"Line", "Transformer"}):
        rows = c.static.index[c.static.active] if active_only else c.static.index
        types += [c.name] * len(rows)
        names += list(rows)
    return pd.MultiIndex.from_arrays([types, names], names=("type", "name"))


def sub_branches(self):
    both = self.n.passive_branches()
    return both[both.sub_network == self.name]


def branches(self):
    kinds = {"Line", "Link", "Transformer"}
    return pd.concat([self.static(k) for k in kinds], keys=kinds, sort=True, names=["component", "name"])


def passive_branches(self):
    kinds = {"Line", "Transformer"}
    return pd.concat([self.static(k) for k in kinds], keys=kinds, sort=True)


def controllable_branches(self):
    kinds = {"Link"}
    return pd.concat([self.static(k) for k in kinds], keys=kinds, sort=True)




def each(self, components=None, skip_empty=True):
    """the components that have rows"""
    kinds = self.all_components if components is None else components
    return [self.components[k] for k in kinds if not skip_empty or not self.static(k).empty]


def sub_each(self, components=None, skip_empty=True):
    kinds = self.n.all_components if components is None else components
    return [self.components[k] for k in kinds if not skip_empty or not self.static(k).empty]


def sub_buses(self):
    return self.static("Bus")


def sub_generators(self):
    return self.static("Generator")


def sub_loads(self):
    return self.static("Load")


def sub_shunt_impedances(self):
    return self.static("ShuntImpedance")


def sub_storage_units(self):
    return self.static("StorageUnit")


def sub_stores(self):
    return self.static("Store")


def sub_buses_i(self):
    return self.static("Bus").index


def sub_lines_i(self):
    return self.static("Line").index


def sub_transformers_i(self):
    return self.static("Transformer").index


def sub_generators_i(self):
    return self.static("Generator").index


def sub_loads_i(self):
    return self.static("Load").index


def sub_shunt_impedances_i(self):
    return self.static("ShuntImpedance").index


def sub_storage_units_i(self):
    return self.static("StorageUnit").index


def sub_stores_i(self):
    return self.static("Store").index


def sub_snapshots(self):
    return self.n.snapshots


def sub_snapshot_weightings(self):
    return self.n.snapshot_weightings


def sub_investment_periods(self):
    return self.n.investment_periods


def sub_investment_period_weightings(self):
    return self.n.investment_period_weightings

"""Reference snippets of the interface: accessors, short names of functions on a network, renamed functions and attributes of a network."""
import geopandas as gpd
import numpy as np
import pandas as pd
import pyproj
from pypsa.components import types
from pypsa.components.abstract import Components, SubNetworkComponents
from pypsa.components.components import Component
from pypsa.components.types import component_types_df
from pypsa.constants import DEFAULT_EPSG, DEFAULT_TIMESTAMP
from pypsa.definitions.components import ComponentsStore
from pypsa.definitions.structures import Dict
from pypsa.deprecations import COMPONENT_ALIAS_DICT
from pypsa.geo import haversine_pts
from pypsa.networks import create_component_property
from pypsa._options import option_context
from pypsa import contingency, descriptors, graph, pf
from pypsa import io as files
from pypsa.clustering import spatial
from pypsa.consistency import consistency_check
from pypsa.optimization import abstract
from pypsa.optimization import optimize as opt
from pypsa.plot.maps import interactive


# ---- n.optimize.<name>(...) is <name>(n, ...)
def optimize(self, *args, **kwargs):
    return opt.optimize(self.n, *args, **kwargs)


def create_model(self, *args, **kwargs):
    return opt.create_model(self.n, *args, **kwargs)


def assign_solution(self, *args, **kwargs):
    return opt.assign_solution(self.n, *args, **kwargs)


def assign_duals(self, *args, **kwargs):
    return opt.assign_duals(self.n, *args, **kwargs)


def post_processing(self, *args, **kwargs):
    return opt.post_processing(self.n, *args, **kwargs)


def optimize_transmission_expansion_iteratively(self, *args, **kwargs):
    return abstract.optimize_transmission_expansion_iteratively(self.n, *args, **kwargs)


def optimize_security_constrained(self, *args, **kwargs):
    return abstract.optimize_security_constrained(self.n, *args, **kwargs)


def optimize_with_rolling_horizon(self, *args, **kwargs):
    return abstract.optimize_with_rolling_horizon(self.n, *args, **kwargs)


def optimize_mga(self, *args, **kwargs):
    return abstract.optimize_mga(self.n, *args, **kwargs)


def optimize_and_run_non_linear_powerflow(self, *args, **kwargs):
    return abstract.optimize_and_run_non_linear_powerflow(self.n, *args, **kwargs)


def load_shedding(self, suffix=" load shedding", buses=None, sign=1e-3, marginal_cost=1e2, p_nom=1e9):
    """one generator per bus, with a carrier that exists"""
    n = self.n
    if "Load" not in n.carriers.index:
        n.add("Carrier", "Load")
    where = n.buses.index if buses is None else buses
    return n.add("Generator", where, suffix, bus=where, carrier="Load", sign=sign, marginal_cost=marginal_cost, p_nom=p_nom)


# ---- n.cluster.<name>(...)
def busmap_by_hac(self, *args, **kwargs):
    return spatial.busmap_by_hac(self.n, *args, **kwargs)


def busmap_by_kmeans(self, *args, **kwargs):
    return spatial.busmap_by_kmeans(self.n, *args, **kwargs)


def busmap_by_greedy_modularity(self, *args, **kwargs):
    return spatial.busmap_by_greedy_modularity(self.n, *args, **kwargs)


def cluster_spatially_by_hac(self, *args, **kwargs):
    return spatial.hac_clustering(self.n, *args, **kwargs).n


def cluster_spatially_by_kmeans(self, *args, **kwargs):
    return spatial.kmeans_clustering(self.n, *args, **kwargs).n


def cluster_spatially_by_greedy_modularity(self, *args, **kwargs):
    return spatial.greedy_modularity_clustering(self.n, *args, **kwargs).n


def cluster_by_busmap(self, *args, **kwargs):
    return spatial.get_clustering_from_busmap(self.n, *args, **kwargs).n


def get_clustering_from_busmap(self, *args, **kwargs):
    return spatial.get_clustering_from_busmap(self.n, *args, **kwargs)


# ---- names on the network
def iplot(self, *args, **kwargs):
    return interactive.iplot(self, *args, **kwargs)


def explore(self, *args, **kwargs):
    return interactive.explore(self, *args, **kwargs)


def madd(self, class_name, names, suffix="", **kwargs):
    return self.add(class_name=class_name, name=names, suffix=suffix, **kwargs)


def mremove(self, class_name, names):
    self.remove(class_name=class_name, name=names)


def plus(self, other):
    self.merge(other)


def same(self, other):
    return self.equals(other)


def table(self, component_name):
    return self.components[component_name].static


def series(self, component_name):
    return self.components[component_name].dynamic


# ---- attributes of the network
def timesteps(self):
    if "timestep" in self.snapshots.names:
        return self.snapshots.get_level_values("timestep").unique()
    return self.snapshots


def periods(self):
    if "period" in self.snapshots.names:
        return self.snapshots.get_level_values("period").unique()
    return pd.Index([], name="period")


def has_periods(self):
    return not self.periods.empty


def to_crs(self, new):
    """shapes and buses are given in the same new reference system, x first"""
    old = self.crs
    self.shapes.to_crs(new, inplace=True)
    self._crs = self.shapes.crs
    x, y = pyproj.Transformer.from_crs(old, self.crs, always_xy=True).transform(self.buses["x"], self.buses["y"])
    self.buses["x"] = x
    self.buses["y"] = y


def set_crs(self, new):
    """declares the system of the shapes, whatever it was before"""
    self.shapes.set_crs(new, allow_override=True, inplace=True)
    self._crs = self.shapes.crs


def srid(self):
    return self.crs.to_epsg()


def set_srid(self, new):
    self.crs = pyproj.CRS.from_epsg(new)


# ---- the tables of components
def property_of(property_type, component):
    """n.<list name> and n.<list name>_t are the tables of that component, to read and to replace"""

    def read(self):
        return self.components.get(component).get(property_type)

    def replace(self, value):
        setattr(self.components[component], property_type, value)

    return property(read, replace)


def every_series(self):
    with option_context("warnings.components_store_iter", False):
        return Dict({c.name: c.defaults for c in self.components})


def component_sets(self):
    for category in set(component_types_df.category.unique()):
        if not isinstance(category, float):
            setattr(self, category + "_components", set(component_types_df.index[component_types_df.category == category]))
    self.one_port_components = self.passive_one_port_components | self.controllable_one_port_components
    self.branch_components = self.passive_branch_components | self.controllable_branch_components
    self.all_components = set(component_types_df.index) - {"Network"}


def components_init(self):
    self.components = ComponentsStore()
    for name in component_types_df.index.to_list():
        kind = types.get(name)
        self.components[kind.list_name] = Component(ctype=kind, n=self)
        setattr(type(self), kind.list_name, create_component_property("static", kind.list_name))
        setattr(type(self), kind.list_name + "_t", create_component_property("dynamic", kind.list_name))


def standard_types(self):
    for kind in self.standard_type_components:
        known = self.components[kind].ctype.standard_types
        self.add(kind, known.index, **known)


def kinds(self, components=None, skip_empty=True):
    """the components in the order asked for; empty ones only on request"""
    names = self.all_components if components is None else components
    return (self.components[name] for name in names if not (skip_empty and self.components[name].static.empty))


def one_kind(self, c_name):
    return self.components[c_name]


def own_table(self, c_name):
    return self.components[c_name].static


def own_series(self, c_name):
    return self.components[c_name].dynamic


def all_branches(self):
    return pd.concat((self.static(c) for c in self.branch_components), keys=self.branch_components, sort=True, names=["component", "name"])


def lines_and_transformers(self):
    return pd.concat((self.static(c) for c in self.passive_branch_components), keys=self.passive_branch_components, sort=True)


def links_only(self):
    return pd.concat((self.static(c) for c in self.controllable_branch_components), keys=self.controllable_branch_components, sort=True)


# ---- a sub-network shows its part of the network
def network_of(self):
    return self._n()


def part(self):
    def view(key, c):
        if key == "static":
            if c.name == "Bus" or c.name in self.n.passive_branch_components:
                return c[key][c[key].sub_network == self.name]
            if c.name in self.n.one_port_components:
                return c[key][c[key].bus.isin(self.buses_i())]
            raise ValueError("not part of a sub-network")
        if key == "dynamic":
            return Dict({k: v[self.static(c.name).index.intersection(v.columns)] for k, v in self.n.dynamic(c.name).items()})
        return c[key]

    return ComponentsStore({key: SubNetworkComponents(c, view) for key, c in self.n.components.items()})


def branch_labels(self, active_only=False):
    kinds, names = [], []
    for c in self.iterate_components(self.n.passive_branch_components):
        index = c.static.query("active").index if active_only else c.static.index
        kinds += len(index) * [c.name]
        names += list(index)
    return pd.MultiIndex.from_arrays([kinds, names], names=("type", "name"))


def branches_of(self):
    every = self.n.passive_branches()
    return every[every.sub_network == self.name]


def some_kinds(self, components=None, skip_empty=True):
    names = self.n.all_components if components is None else components
    return (self.components[name] for name in names if not (skip_empty and self.static(name).empty))


def asked(self, item):
    return self._wrapper_func(item, self._wrapped_data)


# ---- a kind of components
def item(self, key):
    return getattr(self, key)


def default_item(self, attribute_name, default=None):
    return getattr(self, attribute_name, default)


def set_item(self, key, value):
    if key not in self.__dict__:
        raise KeyError("unknown")
    setattr(self, key, value)


def nominal(self):
    names = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom"}
    try:
        return names[self.ctype.name]
    except KeyError:
        raise AttributeError("no nominal attribute")


def ports_of(self):
    return [str(c)[3:] for c in self.static if str(c).startswith("bus")]


def units_of(self):
    return self.defaults.unit[self.defaults.unit.notnull()].to_frame()


def attached_network(self):
    if not self.attached:
        raise AttributeError("not attached")
    return self.n


def find(n, value):
    """components by name, alias or themselves, as long as they belong to the network"""
    if isinstance(value, str):
        return getattr(n.components, COMPONENT_ALIAS_DICT[value] if value in COMPONENT_ALIAS_DICT else value)
    if not isinstance(value, Components):
        raise TypeError("neither")
    if value.n is None:
        raise ValueError("not attached")
    if value.n is not n:
        raise ValueError("of another network")
    return value


def line_length(self):
    """great-circle distance of the two buses in metres"""
    x, y = self.n_save.buses.x, self.n_save.buses.y
    start = np.array([self.static.bus0.map(x), self.static.bus0.map(y)]).T
    end = np.array([self.static.bus1.map(x), self.static.bus1.map(y)]).T
    return pd.Series(haversine_pts(a=start, b=end)) * 1000


def empty_tables(ct):
    """one column per static attribute of its type, one empty table per varying attribute"""
    static_types = ct.defaults.loc[ct.defaults.static, "dtype"].drop(["name"])
    if ct.name == "Shape":
        static = gpd.GeoDataFrame({k: gpd.GeoSeries(dtype=d) for k, d in static_types.items()}, columns=static_types.index, crs=pyproj.CRS.from_epsg(DEFAULT_EPSG))
    else:
        static = pd.DataFrame({k: pd.Series(dtype=d) for k, d in static_types.items()}, columns=static_types.index)
    static.index.name = ct.name
    dynamic = Dict()
    for k in ct.defaults.index[ct.defaults.varying]:
        series = pd.DataFrame(index=pd.Index([DEFAULT_TIMESTAMP]), columns=[], dtype=float)
        series.index.name = "snapshot"
        series.columns.name = ct.name
        dynamic[k] = series
    return static, dynamic

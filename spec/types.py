"""Reference snippets of the types of components, and of new networks."""
import logging
from operator import itemgetter
from cloudpathlib import AnyPath as Path

import networkx as nx
import numpy as np
import pandas as pd
import validators
from pyproj import CRS
from scipy.sparse import dok_matrix

from pypsa._options import options
from pypsa.clustering import ClusteringAccessor
from pypsa.components import types
from pypsa.components.abstract import Components
from pypsa.components.components import CLASS_MAPPING, GenericComponents
from pypsa.constants import DEFAULT_EPSG, DEFAULT_TIMESTAMP
from pypsa.definitions.components import ComponentType, ComponentsStore
from pypsa.definitions.structures import Dict
from pypsa.deprecations import COMPONENT_ALIAS_DICT
from pypsa.optimization.optimize import OptimizationAccessor
from pypsa.plot.accessor import PlotAccessor
from pypsa.statistics.expressions import StatisticsAccessor
from pypsa.version import __version_semver__


# ---- the types known
def register(name, list_name, description, category, defaults_df, standard_types_df=None):
    if list_name in types.all_components or any(t.name == name for t in types.all_components.values()):
        raise ValueError("already exists")
    defaults_df["default"] = defaults_df.default.astype(object)
    defaults_df["static"] = defaults_df.type != "series"
    defaults_df["varying"] = defaults_df.type.isin({"static or series", "series"})
    defaults_df["typ"] = defaults_df.type.map({"geometry": "geometry", "boolean": bool, "int": int, "string": str}).fillna(float)
    defaults_df["dtype"] = defaults_df.type.map({"boolean": np.dtype(bool), "int": np.dtype(int), "string": np.dtype("O")}).fillna(np.dtype(float))
    flags = defaults_df.type == "boolean"
    if flags.any():
        defaults_df.loc[flags, "default"] = defaults_df.loc[flags, "default"].isin({True, "True"})
    texts = defaults_df.typ.apply(lambda x: x is str)
    defaults_df.loc[texts, "default"] = defaults_df.loc[texts, "default"].fillna("")
    for typ in (str, float, int):
        those = defaults_df.typ == typ
        defaults_df.loc[those, "default"] = defaults_df.loc[those, "default"].astype(typ)
    types.all_components[list_name] = ComponentType(
        name=name, list_name=list_name, description=description, category=category, defaults=defaults_df, standard_types=standard_types_df)


def load(component_df, attrs_path, standard_types_path):
    for name, row in component_df.iterrows():
        attrs_file = attrs_path / f"{row.list_name}.csv"
        if not attrs_file.exists():
            raise FileNotFoundError("no attributes")
        attrs = pd.read_csv(attrs_file, index_col=0, na_values="n/a")
        types_file = standard_types_path / f"{row.list_name}.csv"
        types.add_component_type(
            name=name, list_name=row.list_name, description=row.description, category=row.category, defaults_df=attrs,
            standard_types_df=pd.read_csv(types_file, index_col=0) if types_file.exists() else None)


def get(name):
    if name in COMPONENT_ALIAS_DICT:
        name = COMPONENT_ALIAS_DICT[name]
    try:
        return types.all_components[name]
    except KeyError:
        raise ValueError("not found")


def same_type(self, other):
    if not isinstance(other, ComponentType):
        return NotImplemented
    return (self.name == other.name and self.list_name == other.list_name and self.description == other.description
            and str(self.category) == str(other.category) and self.defaults.equals(other.defaults))


# ---- the components of a network
def store_get(self, item):
    try:
        return self[item]
    except KeyError:
        raise AttributeError("no such components")


def store_del(self, name):
    del self[name]


def stored(self):
    return iter(self.values())


def store_has(self, item):
    raise DeprecationWarning("use keys")


def data_init(self, ctype, n=None, names=None, suffix=""):
    if names is not None:
        raise NotImplementedError("names")
    if n is not None:
        raise NotImplementedError("network")
    static, dynamic = self._get_data_containers(ctype)
    self.ctype = ctype
    self.n = None
    self.static = static
    self.dynamic = dynamic


def data_set(self, key, value):
    if key not in self.__dict__:
        raise KeyError("not found")
    setattr(self, key, value)


def data_attached(self):
    return self.n is not None


def data_network(self):
    if not self.attached:
        raise AttributeError("not attached")
    return self.n


def component(cls, name=None, ctype=None, n=None, static=None, dynamic=None, list_name=None, attrs=None, investment_periods=None, ind=None):
    if name and ctype is not None or not name and ctype is None:
        raise ValueError("one of both")
    if investment_periods is not None:
        raise DeprecationWarning("pass n")
    if name:
        ctype = types.get(name)
    made = CLASS_MAPPING.get(ctype.name)
    made = made(ctype=ctype) if made is not None else GenericComponents(ctype=ctype)
    if n is not None:
        made.n = n
    if static is not None:
        made.static = static
    if dynamic is not None:
        made.dynamic = dynamic
    return made


def of_network(n, value):
    if isinstance(value, str):
        return getattr(n.components, COMPONENT_ALIAS_DICT[value] if value in COMPONENT_ALIAS_DICT else value)
    if not isinstance(value, Components):
        raise TypeError("a string or components")
    if value.n is None:
        raise ValueError("not attached")
    if value.n is not n:
        raise ValueError("attached elsewhere")
    return value


# ---- new networks
def new_network(self, import_name="", name="", ignore_standard_types=False, override_components=None, override_component_attrs=None, **kwargs):
    if override_components is not None or override_component_attrs is not None:
        raise DeprecationWarning("no longer taken")
    logging.basicConfig(level=logging.INFO)
    self.name = name
    self.pypsa_version = __version_semver__
    self._meta = {}
    self._crs = CRS.from_epsg(DEFAULT_EPSG)
    self._snapshots = pd.Index([DEFAULT_TIMESTAMP], name="snapshot")
    self._snapshot_weightings = pd.DataFrame(1, index=self.snapshots, columns=["objective", "stores", "generators"])
    self._investment_period_weightings = pd.DataFrame(index=self.investment_periods, columns=["objective", "years"])
    self.optimize = OptimizationAccessor(self)
    self.cluster = ClusteringAccessor(self)
    self.statistics = StatisticsAccessor(self)
    self.plot = PlotAccessor(self)
    self._initialize_component_sets()
    self._initialize_components()
    if not ignore_standard_types:
        self.read_in_default_standard_types()
    if import_name:
        if not validators.url(str(import_name)):
            import_name = Path(import_name)
        text = str(import_name)
        if text.endswith(".h5"):
            self.import_from_hdf5(import_name)
        elif text.endswith(".nc"):
            self.import_from_netcdf(import_name)
        elif text.endswith((".xls", ".xlsx", ".xlsm", ".xlsb")):
            self.import_from_excel(import_name)
        elif isinstance(import_name, Path) and import_name.is_dir():
            self.import_from_csv_folder(import_name)
        else:
            raise ValueError("not a file")
    for key, value in kwargs.items():
        setattr(self, key, value)


def set_in_store(self, name, value):
    if hasattr(ComponentsStore, name):
        raise AttributeError("taken")
    self[name] = value


def set_in_dict(self, name, value):
    if hasattr(Dict, name):
        raise AttributeError("taken")
    self[name] = value


def get_in_dict(self, item):
    try:
        return self[item]
    except KeyError:
        raise AttributeError("missing")


def del_in_dict(self, name):
    del self[name]



def set_meta(self, new):
    if not isinstance(new, (dict, Dict)):
        raise TypeError("dictionary")
    self._meta = new


def get_meta(self):
    return self._meta




def tree(sub_network, weight="x_pu"):
    begin = sub_network.branches()["bus0"]
    graph = sub_network.graph(weight=weight, inf_weight=1.0)
    sub_network.tree = nx.minimum_spanning_tree(graph)
    root, degree = max(sub_network.tree.degree(), key=itemgetter(1))
    sub_network.T = dok_matrix((len(begin.index), len(sub_network.buses_i())))
    for j, bus in enumerate(sub_network.buses_i()):
        path = nx.shortest_path(sub_network.tree, bus, root)
        for i in range(len(path) - 1):
            at = begin.index.get_loc(next(iter(graph[path[i]][path[i + 1]].keys())))
            if begin.iat[at] == path[i]:
                sub_network.T[at, j] = 1
            else:
                sub_network.T[at, j] = -1

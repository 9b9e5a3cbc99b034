"""Reference snippets of names and arguments kept for older code."""
import warnings

import linopy
import pandas as pd
from packaging import version

from pypsa import common
from pypsa.io import _import_series_from_df
from pypsa.optimization.constraints import define_total_supply_constraints
from pypsa._options import options
from pypsa.statistics import grouping
from pypsa.statistics.abstract import AbstractStatisticsAccessor
from pypsa.plot.maps import static


# ---- arguments under their old names
def rename(func_name, kwargs, aliases, deprecated_in, removed_in):
    if version.parse(deprecated_in) > version.parse(common.__version_semver__):
        raise ValueError("deprecated in a later version")
    for old, new in aliases.items():
        if old in kwargs:
            if new in kwargs:
                raise DeprecationWarning("both the old and the new name are given")
            warnings.warn(message="old name", category=DeprecationWarning, stacklevel=3)
            kwargs[new] = kwargs.pop(old)


def use_renaming(f, args, kwargs, aliases, since, until):
    return common.deprecated_kwargs(since, until, **aliases)(f)(*args, **kwargs)


def renaming(f, args, kwargs, aliases, since, until):
    common.rename_deprecated_kwargs(f.__name__, kwargs, aliases, since, until)
    return f(*args, **kwargs)


def use_common(f, args, kwargs):
    return common.deprecated_common_kwargs(f)(*args, **kwargs)


def common_names(f, args, kwargs):
    common.rename_deprecated_kwargs(f.__name__, kwargs, {"network": "n"}, "0.31", "1.0")
    return f(*args, **kwargs)


def use_namespace(f, module, since, until, args, kwargs):
    return common.deprecated_namespace(f, module, since, until)(*args, **kwargs)


def namespace(f, module, since, until, args, kwargs):
    if version.parse(since) > version.parse(common.__version_semver__):
        raise ValueError("deprecated in a later version")
    warnings.warn("old place", DeprecationWarning, stacklevel=2)
    return f(*args, **kwargs)


def use_grouper(f, args, kwargs):
    return grouping.deprecated_grouper(f)(*args, **kwargs)


def grouper(f, args, kwargs):
    warnings.warn("old name", DeprecationWarning, stacklevel=2)
    return f(*args, **kwargs)


# ---- functions and methods under their old names
def get_var(n, c, key):
    return n.model[f"{c}-{key}"]


def define_variables(n, lower, upper, name, attr="", axes=None, spec="", mask=None, **kwargs):
    name = f"{name}-{attr}" + (f"-{spec}" if spec else "")
    return n.model.add_variables(lower, upper, coords=axes, name=name, mask=mask, **kwargs)


def define_constraints(n, lhs, sense, rhs, name, attr="", axes=None, spec="", mask=None, **kwargs):
    name = f"{name}-{attr}" + (f"-{spec}" if spec else "")
    return n.model.add_constraints(lhs, sense, rhs, name=name, mask=mask, **kwargs)


def linexpr(*tuples, as_pandas=True, return_axes=False):
    return linopy.LinearExpression.from_tuples(*tuples)


def join_exprs(arr, **kwargs):
    return linopy.LinearExpression.sum(arr, **kwargs)


def define_generators_constraints(n, sns):
    return define_total_supply_constraints(n, sns)


def import_components_from_dataframe(n, dataframe, cls_name):
    n.add(cls_name, dataframe.index, **dataframe)


def import_series_from_dataframe(n, dataframe, cls_name, attr):
    _import_series_from_df(n, dataframe, cls_name, attr)


def get_grouping(n, c, groupby, port=None, nice_names=False):
    return n.statistics._get_grouping(n, c, groupby, port, nice_names)


def aggregate_timeseries(df, weights, agg="sum"):
    return AbstractStatisticsAccessor._aggregate_timeseries(df, weights, agg)


def filter_active_assets(n, c, df):
    return n.statistics._filter_active_assets(n, c, df)


def filter_bus_carrier(n, c, port, bus_carrier, df):
    return n.statistics._filter_bus_carrier(n, c, port, bus_carrier, df)


def get_carrier(self, *args, **kwargs):
    return grouping.groupers.carrier(*args, **kwargs)


def get_bus_carrier(self, *args, **kwargs):
    return grouping.groupers.bus_carrier(*args, **kwargs)


def get_bus(self, *args, **kwargs):
    return grouping.groupers.bus(*args, **kwargs)


def get_country(self, *args, **kwargs):
    return grouping.groupers.country(*args, **kwargs)


def get_unit(self, *args, **kwargs):
    return grouping.groupers.unit(*args, **kwargs)


def get_name(self, *args, **kwargs):
    return grouping.groupers.name(*args, **kwargs)


def get_bus_and_carrier(self, *args, **kwargs):
    return grouping.groupers["bus", "carrier"](*args, **kwargs)


def get_bus_unit_and_carrier(self, *args, **kwargs):
    return grouping.groupers["bus", "unit", "carrier"](*args, **kwargs)


def get_name_bus_and_carrier(self, *args, **kwargs):
    return grouping.groupers["name", "bus", "carrier"](*args, **kwargs)


def get_country_and_carrier(self, *args, **kwargs):
    return grouping.groupers["country", "carrier"](*args, **kwargs)


def get_bus_and_carrier_and_bus_carrier(self, *args, **kwargs):
    return grouping.groupers["bus", "carrier", "bus_carrier"](*args, **kwargs)


def get_carrier_and_bus_carrier(self, *args, **kwargs):
    return grouping.groupers["carrier", "bus_carrier"](*args, **kwargs)


def get_drop_zero(self):
    return options.get_option("params.statistics.drop_zero")


def get_nice_names(self):
    return options.get_option("params.statistics.nice_names")


def get_round(self):
    return options.get_option("params.statistics.round")


def set_drop_zero(self, value):
    options.set_option("params.statistics.drop_zero", value)


def set_nice_names(self, value):
    options.set_option("params.statistics.nice_names", value)


def set_round(self, value):
    options.set_option("params.statistics.round", value)


def set_parameters(self, **kwargs):
    for key, value in kwargs.items():
        options.set_option("params.statistics." + key, value)


def own_n(self):
    return self.n


def own_category(self):
    return self.category


def own_defaults(self):
    return self.defaults


def legacy_plot(self, *args, **kwargs):
    return static.plot(self.n, *args, **kwargs)


def own_type(self):
    return self.ctype.category


def own_attrs(self):
    return self.ctype.defaults


def own_static(self):
    return self.static


def own_dynamic(self):
    return self.dynamic

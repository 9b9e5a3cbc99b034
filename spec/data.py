"""Reference snippets of the data model: what adding, removing, renaming, copying, slicing and merging do to the tables."""
import copy
import numpy as np
import pandas as pd
from pypsa.common import as_index
from pypsa.components.common import as_components
from pypsa.descriptors import additional_linkports, update_linkports_component_attrs, update_linkports_doc_changes
from pypsa.io import _import_components_from_df, _sort_attrs
from shapely.geometry.base import BaseGeometry
import geopandas as gpd
from pypsa.typing import is_1d_list_like


def add(self, class_name, name, suffix="", overwrite=False, **kwargs):
    """one row per name; values per snapshot become series, all others static values"""
    kind = as_components(self, class_name).name
    one = np.isscalar(name)
    labels = (pd.Index([name]) if one else pd.Index(name)).astype(str) + suffix
    if not labels.is_unique:
        raise ValueError("names must be unique")

    def suffixed(s):
        return str(s) if str(s).endswith(suffix) else str(s) + suffix

    varying, constant = {}, {}
    for attr, value in kwargs.items():
        if isinstance(value, dict):
            raise NotImplementedError("dictionaries")
        if isinstance(value, pd.DataFrame):
            value = value.rename(columns=suffixed)
            if not value.index.equals(self.snapshots):
                raise ValueError("snapshots")
            if not value.columns.equals(labels):
                raise ValueError("names")
            varying[attr] = value
            continue
        if isinstance(value, pd.Series):
            if one and not value.index.equals(self.snapshots):
                raise ValueError("snapshots")
            if not one:
                value = value.rename(index=suffixed)
                if not value.index.equals(labels):
                    raise ValueError("names")
        if is_1d_list_like(value):
            try:
                if one:
                    value = pd.Series(value, index=self.snapshots)
                else:
                    value = pd.Series(value)
                    if len(value) == 1:
                        value = value.iloc[0]
                    else:
                        value.index = labels
            except ValueError:
                raise ValueError("length")
            if one:
                varying[attr] = pd.DataFrame(value.values, index=self.snapshots, columns=labels)
            else:
                constant[attr] = value.values if isinstance(value, pd.Series) else value
        elif isinstance(value, np.ndarray):
            if value.shape != (len(self.snapshots), len(labels)):
                raise ValueError("shape")
            varying[attr] = pd.DataFrame(value, index=self.snapshots, columns=labels)
        else:
            constant[attr] = value
    base = pd.DataFrame(constant, index=labels) if constant else pd.DataFrame(index=labels)
    known = labels.intersection(self.static(kind).index)
    if overwrite:
        for series in self.dynamic(kind).values():
            series.drop(columns=known.intersection(series.columns), inplace=True)
    _import_components_from_df(self, base, kind, overwrite=overwrite)
    for attr, value in varying.items():
        self._import_series_from_df(value if overwrite else value.drop(columns=known), kind, attr, overwrite=overwrite)
    return labels


def remove(self, class_name, name, suffix=""):
    """the rows and all series of the names"""
    kind = as_components(self, class_name).name
    labels = (pd.Index([name]) if np.isscalar(name) else pd.Index(name)).astype(str) + suffix
    self.static(kind).drop(labels, inplace=True)
    for series in self.dynamic(kind).values():
        series.drop(series.columns.intersection(labels), axis=1, inplace=True)


def rename(self, **kwargs):
    """new names in the tables and wherever other components refer to the old ones"""
    if not all(isinstance(v, str) for v in kwargs.values()):
        raise ValueError("not a name")
    self.static = self.static.rename(index=kwargs)
    for attr, series in self.dynamic.items():
        self.dynamic[attr] = series.rename(columns=kwargs)
    column = self.name.lower()
    for other in self.n_save.components.values():
        columns = other.static.columns.intersection([column] + [f"{column}{p}" for p in other.ports])
        if self.name == f"{other.name}Type":
            columns = columns.union(["type"])
        other.static[columns] = other.static[columns].replace(kwargs)


def choose_snapshots(self, snapshots, default_snapshot_weightings=1.0, weightings_from_timedelta=False):
    """new snapshots: series and weightings keep the values of old snapshots and get defaults for new ones"""
    dated = isinstance(snapshots, pd.DatetimeIndex)
    if dated and snapshots.tz is not None:
        raise ValueError("time zone")
    if isinstance(snapshots, pd.MultiIndex):
        if snapshots.nlevels != 2:
            raise ValueError("levels")
        times = snapshots.rename(["period", "timestep"])
    else:
        times = pd.Index(snapshots, name="snapshot")
    self._snapshots = times
    if len(times) == 0:
        raise ValueError("empty")
    self.snapshot_weightings = self.snapshot_weightings.reindex(times, fill_value=default_snapshot_weightings)
    if dated and weightings_from_timedelta:
        hours = snapshots.to_series().diff(periods=1).shift(-1).ffill().apply(lambda step: step.total_seconds() / 3600)
        self._snapshot_weightings = pd.DataFrame({c: hours for c in self._snapshot_weightings.columns})
    for kind in self.all_components:
        series = self.dynamic(kind)
        attrs = self.components[kind]["attrs"]
        defaults = attrs.default[attrs.varying]
        for attr in series.keys():
            old = series[attr]
            if old.empty:
                old.index = times
            elif attr not in defaults:
                series[attr] = old.reindex(times)
            elif isinstance(old.index, pd.MultiIndex):
                series[attr] = old.reindex(times, fill_value=defaults[attr])
            else:
                series[attr] = old.reindex(times, fill_value=defaults[attr], level="timestep")


def choose_periods(self, periods):
    """investment periods: all series and weightings repeated per period, or the periods the snapshots have"""
    years = pd.Index(periods, name="period")
    if years.empty:
        return
    if not (pd.api.types.is_integer_dtype(years) and years.is_unique and years.is_monotonic_increasing):
        raise ValueError("periods")
    if isinstance(self.snapshots, pd.MultiIndex):
        known = self.snapshots.unique("period")
        if not years.isin(known).all():
            raise ValueError("unknown")
        if len(years) < len(known):
            raise NotImplementedError("subset")
    else:
        levels = ["period", "timestep"]
        for kind in self.all_components:
            series = self.dynamic(kind)
            for attr in series.keys():
                series[attr] = pd.concat({p: series[attr] for p in years}, names=levels)
                series[attr].index.name = "snapshot"
        self._snapshots = pd.MultiIndex.from_product([years, self.snapshots], names=levels)
        self._snapshots.name = "snapshot"
        self._snapshot_weightings = pd.concat({p: self.snapshot_weightings for p in years}, names=levels)
        self._snapshot_weightings.index.name = "snapshot"
    self.investment_period_weightings = self.investment_period_weightings.reindex(self.periods, fill_value=1.0).astype(float)


def choose_weightings(self, df):
    """weightings given once are used for all purposes"""
    assert df.index.equals(self.snapshots)
    self._snapshot_weightings = pd.DataFrame({c: df for c in self._snapshot_weightings.columns}) if isinstance(df, pd.Series) else df


def choose_period_weightings(self, df):
    """weightings of periods"""
    assert df.index.equals(self.investment_periods)
    self._investment_period_weightings = pd.DataFrame({c: df for c in self._investment_period_weightings.columns}) if isinstance(df, pd.Series) else df


def whole_copy(self, snapshots=None, investment_periods=None, ignore_standard_types=False, with_time=None):
    """a copy without arguments shares nothing with the network"""
    return copy.deepcopy(self)


def partial_copy(self, snapshots=None, investment_periods=None, ignore_standard_types=False, with_time=None):
    """all components, and the series of the chosen snapshots"""
    times = pd.Index([], name="snapshot") if with_time is not None else as_index(self, snapshots, "snapshots")
    periods = as_index(self, investment_periods, "investment_periods")
    new = self.__class__(ignore_standard_types=ignore_standard_types)
    for c in self.iterate_components(["Bus", "Carrier"] + sorted(self.all_components - {"Bus", "Carrier"})):
        table = c.static
        if c.name in self.standard_type_components and not ignore_standard_types:
            table = table.drop(new.components[c.name]["standard_types"].index)
        new.add(c.name, table.index, **table)
    if len(times) > 0:
        new.set_snapshots(times)
        for c in self.iterate_components():
            for attr in c.dynamic.keys():
                try:
                    series = c.dynamic[attr].loc[times]
                except KeyError:
                    series = c.dynamic[attr].reindex(times)
                new.dynamic(c.name)[attr] = series
        if not periods.empty:
            new.set_investment_periods(periods)
        new.snapshot_weightings = self.snapshot_weightings.loc[times]
        new.investment_period_weightings = self.investment_period_weightings.loc[periods]
    for attr in ("name", "srid", "_meta", "_linearized_uc", "_multi_invest", "objective", "objective_constant", "now"):
        try:
            setattr(new, attr, getattr(self, attr))
        except AttributeError:
            pass
    return new


def part(self, key):
    """the chosen buses, everything connected to them only, and the chosen snapshots"""
    times = slice(None)
    if isinstance(key, tuple):
        times, key = key
    if np.isscalar(key):
        key = [key]
    new = self.__class__()

    def take(kind, table):
        new.add(kind, table.index, **table)

    take("Bus", self.buses.loc[key].assign(sub_network=""))
    buses = new.buses.index
    for kind in self.all_components - {"Bus", "SubNetwork"}:
        if kind in self.standard_type_components:
            take(kind, self.static(kind).drop(self.components[kind]["standard_types"].index))
        elif kind in self.one_port_components:
            take(kind, self.static(kind)[self.static(kind).bus.isin(buses)])
        elif kind in self.branch_components:
            take(kind, self.static(kind)[self.static(kind).bus0.isin(buses) & self.static(kind).bus1.isin(buses)])
        else:
            take(kind, self.static(kind))
    new.set_snapshots(self.snapshot_weightings.loc[times].index)
    for kind in self.all_components:
        labels = new.static(kind).index
        try:
            mine, theirs = new.dynamic(kind), self.dynamic(kind)
            for attr in theirs:
                mine[attr] = theirs[attr].loc[times, labels.intersection(theirs[attr].columns)]
        except AttributeError:
            pass
    new.name = self.name
    new.crs = self.crs
    new.snapshot_weightings = self.snapshot_weightings.loc[times]
    if self.has_investment_periods:
        new.investment_period_weightings = self.investment_period_weightings.loc[new.investment_periods]
    return new


def merge(n, other, components_to_skip=None, inplace=False, with_time=True):
    """components of both networks with their series"""
    kinds = other.all_components - {"Network", "SubNetwork", "LineType", "TransformerType"}
    if components_to_skip:
        kinds = kinds - set(components_to_skip)
    ordered = sorted(kinds & {"Bus"}) + sorted(kinds - {"Bus"})
    for c in other.iterate_components(ordered):
        if not c.static.index.intersection(n.static(c.name).index).empty:
            raise ValueError("overlap")
    if with_time:
        if not n.snapshots.equals(other.snapshots):
            raise ValueError("snapshots")
        if not n.snapshot_weightings.equals(other.snapshot_weightings):
            mine = n.snapshot_weightings.reindex(sorted(n.snapshot_weightings.columns), axis=1)
            if not mine.equals(other.snapshot_weightings.reindex(sorted(other.snapshot_weightings.columns), axis=1)):
                raise ValueError("weightings")
    new = n if inplace else n.copy()
    for c in other.iterate_components(ordered):
        new.add(c.name, c.static.index, **c.static)
        if with_time:
            for attr, series in c.dynamic.items():
                new._import_series_from_df(series, c.name, attr)
    if not inplace:
        return new


def take_series(n, df, cls_name, attr, overwrite=False):
    """series of known components; existing ones are kept unless overwritten"""
    series = n.dynamic(cls_name)
    if not overwrite:
        try:
            df = df.drop(df.columns.intersection(series[attr].columns), axis=1)
        except KeyError:
            pass
    attrs = n.components[cls_name]["attrs"]
    if attr not in attrs[attrs.type.str.contains("series")].index:
        if overwrite or attr not in series:
            series[attr] = df
        return
    default = attrs.loc[attr].default
    if len(n.snapshots.difference(df.index)):
        df = df.reindex(n.snapshots, fill_value=default)
    if attrs.loc[attr].static:
        wide = series[attr].reindex(columns=df.columns.union(series[attr].columns))
    else:
        wide = series[attr].reindex(columns=df.columns.union(n.static(cls_name).index), fill_value=default)
    series[attr] = wide
    series[attr].loc[n.snapshots, df.columns] = df.loc[n.snapshots, df.columns]


def take_table(n, df, cls_name, overwrite=False):
    """rows with defaults for what is missing; existing rows are kept unless overwritten"""
    attrs = n.components[cls_name]["attrs"]
    fixed, varying = attrs[attrs.static].drop("name"), attrs[~attrs.static]
    if cls_name == "Link":
        update_linkports_component_attrs(n, where=df)
    df = pd.DataFrame(df)
    df.index = df.index.astype(str)
    df = df.fillna(attrs["default"].to_dict())
    for k in fixed.index:
        if k not in df.columns:
            df[k] = fixed.at[k, "default"]
            continue
        if fixed.at[k, "type"] == "string":
            df[k] = df[k].replace({np.nan: ""})
        if fixed.at[k, "type"] == "int":
            df[k] = df[k].fillna(0)
        if df[k].dtype != fixed.at[k, "typ"]:
            if fixed.at[k, "type"] == "geometry":
                shapes = df[k].replace({"": None, np.nan: None})
                if shapes.apply(lambda s: isinstance(s, BaseGeometry)).all():
                    df[k] = gpd.GeoSeries(shapes)
                else:
                    df[k] = gpd.GeoSeries.from_wkt(shapes)
            else:
                df[k] = df[k].astype(fixed.at[k, "typ"])
    outputs = varying.index.intersection(df.columns)
    old, new = n.static(cls_name), df.drop(outputs, axis=1)
    twice = old.index.intersection(new.index)
    if len(twice) > 0:
        if overwrite:
            old = old.drop(twice)
        else:
            new = new.drop(twice)
    table = new if old.empty else pd.concat((old, new), sort=False)
    if cls_name == "Shape":
        table = gpd.GeoDataFrame(table, crs=n.crs)
    table = _sort_attrs(table, attrs.index, axis=1)
    setattr(n, n.components[cls_name]["list_name"], table)
    series = n.dynamic(cls_name)
    for k in outputs:
        series[k] = series[k].reindex(columns=table.index, fill_value=varying.at[k, "default"])
        names = df.index if overwrite else df.index.difference(twice)
        series[k].loc[:, names] = df[k].values if overwrite else df.loc[names, k].values
    setattr(n, n.components[cls_name]["list_name"] + "_t", series)


# ------------------------------------------------------------ additional ports of links
def port_labels(n, where=None):
    columns = n.links.columns if where is None else where
    return [name[3:] for name in columns if name.startswith("bus") and name not in ("bus0", "bus1")]


def renamed(s, j, i):
    if not isinstance(s, str) or len(s) == 1:
        return s
    return s.replace(j, str(i)).replace("required", "optional")


def with_more_ports(n, where=None):
    ports = additional_linkports(n, where)
    ports.sort(reverse=True)
    for i in ports:
        for attr, base in (("bus", "bus1"), ("efficiency", "efficiency"), ("p", "p1")):
            target = f"{attr}{i}"
            attrs = n.components["Link"]["attrs"]
            if target not in attrs.index:
                attrs.loc[target] = attrs.loc[base].apply(update_linkports_doc_changes, args=("1", i))
            if attr == "bus":
                if target not in n.static("Link").columns:
                    n.static("Link")[target] = n.components["Link"]["attrs"].loc[target, "default"]
            elif target not in n.dynamic("Link").keys():
                n.dynamic("Link")[target] = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)

"""Reference snippets of the overview of statistics, and of their charts and maps."""
import numpy as np
import pandas as pd

from pypsa.plot.statistics import charts, maps, schema
from pypsa.plot.statistics.plotter import StatisticInteractivePlotter, StatisticPlotter
from pypsa.statistics.grouping import Groupers


# ---- all statistics at one glance
def overview(self, comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False, carrier=None, bus_carrier=None,
             nice_names=None, drop_zero=None, round=None, aggregate_time=None):
    same = dict(comps=comps, aggregate_groups=aggregate_groups, aggregate_across_components=aggregate_across_components, groupby=groupby, at_port=at_port, carrier=carrier,
                bus_carrier=bus_carrier, nice_names=nice_names, drop_zero=drop_zero, round=round)
    parts = {}
    for stat in (self.optimal_capacity, self.installed_capacity, self.supply, self.withdrawal, self.energy_balance, self.transmission, self.capacity_factor, self.curtailment,
                 self.capex, self.opex, self.revenue, self.market_value):
        df = stat(**same)
        parts[df.attrs["name"]] = df
    rows = pd.Index(set.union(*[set(df.index) for df in parts.values()]))
    return pd.concat({k: v.reindex(rows, fill_value=0.0) for k, v in parts.items()}, axis=1).sort_index(axis=0)


# ---- a statistic is called as the method it stands for
def handler(self, bound_method, n):
    self._bound_method = bound_method
    self._n = n
    self.plot = StatisticPlotter(n=n, bound_method=bound_method)
    self.iplot = StatisticInteractivePlotter(n=n, bound_method=bound_method)


def handled(self, *args, **kwargs):
    return self._bound_method(*args, **kwargs)


def wrapped(self, obj, objtype=None):
    if obj is None:
        return self
    if self.func is None:
        raise TypeError("no method")
    passed = {}
    for key, value in self.inject_attrs.items():
        if not hasattr(obj, value):
            raise AttributeError("not there")
        passed[key] = getattr(obj, value)
    return self.handler_class(self.func.__get__(obj, objtype), **passed)


def decorated(self, func=None):
    if func is not None:
        self.func = func
    return self


def decorator(self, func=None, *, handler_class=None, inject_attrs=None):
    self.func = func
    self.handler_class = handler_class
    self.inject_attrs = inject_attrs or {}


def chosen(self, keys):
    return self._multi_grouper(keys)


def add_grouper(self, name, func):
    setattr(self, name, func)


def no_item(self, key, value):
    raise NotImplementedError()


# ---- the parameters of a chart
def derived(self, *args, method_name=""):
    columns = list({c for c in args if c is not None and c not in ("value", "component", "snapshot")})
    out = {}
    if columns:
        out["groupby"] = columns
    out["aggregate_across_components"] = "component" not in args
    if "snapshot" in args:
        out["aggregate_time"] = False
    return out


def nothing_derived(self, *args, method_name=""):
    return {}


def applied(stats_name, plot_name, kwargs):
    known = schema.schema[stats_name][plot_name]
    gone = []
    for name, value in kwargs.items():
        if name not in known:
            continue
        if value is None:
            kwargs[name] = known[name]["default"]
            if not known[name]["allowed"]:
                gone.append(name)
        elif not known[name]["allowed"]:
            raise ValueError("not for this chart")
    for name in gone:
        kwargs.pop(name)
    return kwargs


def any_kind(self, kind=None):
    if kind not in ["area", "bar", "scatter", "line", "box", "violin", "histogram", "map", None]:
        raise ValueError("unknown kind")
    return getattr(self, schema.apply_parameter_schema(self._bound_method.__name__, "plot", {"kind": kind})["kind"])()


def any_interactive_kind(self, kind=None):
    if kind not in ["bar", "line", "area", None]:
        raise ValueError("unknown kind")
    return getattr(self, schema.apply_parameter_schema(self._bound_method.__name__, "plot", {"kind": kind})["kind"])()


def shown(self, plot_kwargs, stats_kwargs, kwargs, chart_type, cls):
    """the statistic is evaluated for the columns which are shown"""
    if "aggregate_time" in kwargs or "aggregate_across_components" in kwargs or "groupby" in kwargs:
        raise ValueError("derived from the chart")
    name = self._bound_method.__name__
    plotter = cls(self._n)
    plot_kwargs = schema.apply_parameter_schema(name, chart_type, plot_kwargs)
    stats_kwargs.update(plotter.derive_statistic_parameters(plot_kwargs["x"], plot_kwargs["y"], plot_kwargs["color"], plot_kwargs["facet_col"], plot_kwargs["facet_row"], method_name=name))
    data = self._bound_method(**schema.apply_parameter_schema(name, chart_type, stats_kwargs))
    return plotter, data, plot_kwargs


def chart(self, chart_type, x=None, y=None, color=None, facet_col=None, facet_row=None, stacked=True, query=None, nice_names=True, carrier=None, bus_carrier=None, storage=None,
          sharex=None, sharey=None, height=None, aspect=None, row_order=None, col_order=None, hue_order=None, hue_kws=None, despine=True, margin_titles=False, xlim=None, ylim=None,
          subplot_kws=None, gridspec_kws=None, **kwargs):
    look = dict(x=x, y=y, color=color, facet_col=facet_col, facet_row=facet_row, stacked=stacked, query=query, nice_names=nice_names, sharex=sharex, sharey=sharey, height=height,
                aspect=aspect, row_order=row_order, col_order=col_order, hue_order=hue_order, hue_kws=hue_kws, despine=despine, margin_titles=margin_titles, xlim=xlim, ylim=ylim,
                subplot_kws=subplot_kws, gridspec_kws=gridspec_kws)
    what = dict(carrier=carrier, bus_carrier=bus_carrier, storage=storage, nice_names=nice_names)
    plotter, data, look = shown(self, look, what, kwargs, chart_type, charts.ChartGenerator)
    return plotter.plot(data, chart_type, **look, **kwargs)


def interactive_chart(self, chart_type, x=None, y=None, color=None, facet_col=None, facet_row=None, stacked=True, query=None, nice_names=True, carrier=None, bus_carrier=None, storage=None,
                      sharex=None, sharey=None, height=500, width=800, row_order=None, col_order=None, color_order=None, color_discrete_map=None, range_x=None, range_y=None, labels=None,
                      title=None, **kwargs):
    look = dict(x=x, y=y, color=color, facet_col=facet_col, facet_row=facet_row, stacked=stacked, query=query, nice_names=nice_names, sharex=sharex, sharey=sharey, height=height,
                width=width, row_order=row_order, col_order=col_order, color_order=color_order, color_discrete_map=color_discrete_map, range_x=range_x, range_y=range_y, labels=labels,
                title=title)
    what = dict(carrier=carrier, bus_carrier=bus_carrier, storage=storage, nice_names=nice_names)
    plotter, data, look = shown(self, look, what, kwargs, chart_type, charts.ChartGenerator)
    return plotter.iplot(data, chart_type, **look, **kwargs)


def shown_map(self, ax=None, projection=None, geomap=True, geomap_resolution="50m", geomap_colors=None, boundaries=None, title="", bus_carrier=None, carrier=None, transmission_flow=None,
              bus_area_fraction=0.02, branch_area_fraction=0.02, flow_area_fraction=0.02, draw_legend_circles=True, draw_legend_lines=None, draw_legend_arrows=None, draw_legend_patches=True,
              legend_circles_kw=None, legend_lines_kw=None, legend_arrows_kw=None, legend_patches_kw=None, bus_split_circles=None, storage=None, **kwargs):
    look = dict(ax=ax, projection=projection, geomap=geomap, geomap_resolution=geomap_resolution, geomap_colors=geomap_colors, boundaries=boundaries, title=title, bus_carrier=bus_carrier,
                carrier=carrier, transmission_flow=transmission_flow, bus_area_fraction=bus_area_fraction, branch_area_fraction=branch_area_fraction, flow_area_fraction=flow_area_fraction,
                draw_legend_circles=draw_legend_circles, draw_legend_lines=draw_legend_lines, draw_legend_arrows=draw_legend_arrows, draw_legend_patches=draw_legend_patches,
                legend_circles_kw=legend_circles_kw, legend_lines_kw=legend_lines_kw, legend_arrows_kw=legend_arrows_kw, legend_patches_kw=legend_patches_kw, bus_split_circles=bus_split_circles)
    name = self._bound_method.__name__
    look = schema.apply_parameter_schema(name, "map", look)
    return maps.MapPlotGenerator(self._n).plot(func=self._bound_method, **look, stats_kwargs=schema.apply_parameter_schema(name, "map", {"storage": storage}), **kwargs)


# ---- the data of a chart
def long_series(self, data):
    return data.rename("value").reset_index()


def long_table(self, data):
    return data.fillna(0).melt(ignore_index=False).reset_index()


def has_values(self, data):
    if "value" not in data.columns:
        raise ValueError("no values")
    return data


def colors(self, carriers=None, nice_names=True):
    if carriers is None:
        carriers = self._n.carriers.index
    colors = self._n.carriers.color[carriers]
    if nice_names:
        colors = colors.rename(self.get_carrier_labels(carriers=carriers, nice_names=nice_names))
    return {"-": "gray", None: "gray", "": "gray", **colors[~colors.index.duplicated(keep="first")]}


def labels(self, carriers=None, nice_names=True):
    if carriers is None:
        carriers = self._n.carriers.index
    if not nice_names:
        return pd.Series(carriers, index=carriers)
    names = self._n.carriers.nice_name[carriers]
    return names.where(names != "", carriers)


def orders(self, facet_row, facet_col, color, row_order, col_order, color_order):
    out = {}
    if facet_row is not None and row_order is not None:
        out[facet_row] = row_order
    if facet_col is not None and col_order is not None:
        out[facet_col] = col_order
    if color is not None and color_order is not None:
        out[color] = color_order
    return out

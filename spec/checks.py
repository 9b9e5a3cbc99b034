"""Reference snippets of the consistency checks: what is wrong, and when it raises."""
import logging

import numpy as np
import pandas as pd
from pypsa import consistency
from pypsa.consistency import ConsistencyError

logger = logging.getLogger(__name__)


def complain(strict):
    if strict:
        raise ConsistencyError("inconsistent")
    else:
        logger.warning("inconsistent")


def unknown_buses(n, component, strict=False):
    static = component.static
    for attr in static.columns[static.columns.str.startswith("bus")]:
        missing = ~static[attr].astype(str).isin(n.buses.index)
        if component.name in n.branch_components and int(attr[-1]) > 1:
            missing = missing & (static[attr] != "")
        if missing.any():
            complain(strict)


def disconnected_buses(n, strict=False):
    connected = set()
    for c in n.iterate_components():
        for attr in c.static.columns[c.static.columns.str.startswith("bus")]:
            connected.update(c.static[attr])
    if set(n.buses.index) - connected:
        complain(strict)


def unknown_carriers(n, component, strict=False):
    if "carrier" in component.static.columns:
        carrier = component.static["carrier"]
        if (~carrier.isin(n.carriers.index) & carrier.notna() & (carrier != "")).any():
            complain(strict)


def zero_impedances(n, component, strict=False):
    if component.name in n.passive_branch_components:
        for attr in ("x", "r"):
            if (component.static[attr] == 0).any():
                complain(strict)


def zero_s_nom(component, strict=False):
    if component.name == "Transformer" and (component.static["s_nom"] == 0).any():
        complain(strict)


def time_series(n, component, strict=False):
    for attr in component.attrs.index[component.attrs.varying & component.attrs.static]:
        series = component.dynamic[attr]
        if len(series.columns.difference(component.static.index)):
            complain(strict)
        if not n.snapshots.equals(series.index):
            complain(strict)


def static_power_attributes(n, component, strict=False):
    if component.name in n.all_components - {"TransformerType"}:
        found = component.attrs.query("static").index.intersection(["p_nom", "s_nom", "e_nom"])
        if len(found):
            attr = found[0]
            if (component.static[attr + "_max"] < component.static[attr + "_min"]).any():
                complain(strict)
            for col in [attr + "_min", attr + "_max"]:
                if component.static[col][component.static[attr + "_extendable"]].isna().any():
                    complain(strict)


def time_series_power_attributes(n, component, strict=False):
    if component.name in n.all_components - {"TransformerType"}:
        found = component.attrs.query("varying").index.intersection(["p_max_pu", "e_max_pu"])
        if len(found):
            attr = found[0][0]
            upper = n.get_switchable_as_dense(component.name, attr + "_max_pu")
            lower = n.get_switchable_as_dense(component.name, attr + "_min_pu")
            if upper.isna().to_numpy().any():
                for col in upper.columns[upper.isna().any()]:
                    complain(strict)
            if lower.isna().to_numpy().any():
                for col in lower.columns[lower.isna().any()]:
                    complain(strict)
            if np.isinf(upper).to_numpy().any():
                for col in upper.columns[np.isinf(upper).any()]:
                    complain(strict)
            if np.isinf(lower).to_numpy().any():
                for col in lower.columns[np.isinf(lower).any()]:
                    complain(strict)
            diff = upper - lower
            for col in diff[diff < 0].dropna(axis=1, how="all").columns:
                complain(strict)


def assets(n, component, strict=False):
    if component.name in {"Generator", "Link"}:
        both = n.get_committable_i(component.name).intersection(n.get_extendable_i(component.name))
        if not both.empty:
            complain(strict)


def generators(component, strict=False):
    if component.name == "Generator":
        g = component.static
        if not g.index[g.committable & (g.up_time_before > 0) & (g.down_time_before > 0)].empty:
            complain(strict)
        if not g.index[g.e_sum_min > g.e_sum_max].empty:
            complain(strict)


def dtypes(component, strict=False):
    wanted = component.attrs.loc[component.attrs["static"], "dtype"].drop("name")
    if (component.static.dtypes[wanted.index] != wanted).any():
        complain(strict)
    for attr, typ, dtype in component.attrs.loc[component.attrs["varying"], ["typ", "dtype"]].itertuples():
        if not component.dynamic[attr].empty and (component.dynamic[attr].dtypes != dtype).any():
            complain(strict)


def investment_periods(n, strict=False):
    periods = set(n.global_constraints.investment_period.dropna().unique())
    if isinstance(n.snapshots, pd.MultiIndex):
        wrong = not periods.issubset(n.snapshots.unique("period"))
    else:
        wrong = bool(periods)
    if wrong:
        if strict:
            raise ValueError("period")
        complain(strict)


def shapes(n, strict=False):
    for c in set(n.shapes.component.unique()) & set(n.all_components):
        geos = n.shapes.query("component == @c")
        if not geos.index[~geos.idx.isin(n.static(c).index)].empty:
            complain(strict)


def nans(n, component, strict=False):
    table = n.component_attrs[component.name]
    wanted = table[table["default"].notna() & table["default"].ne("")].index
    static = component.static[list(set(component.static.columns).intersection(wanted))]
    if static.isna().any().any():
        complain(strict)
    for key, values in component.dynamic.items():
        if key in wanted and not values.empty:
            if values.isna().any().any():
                complain(strict)


def missing_colors(n, strict=False):
    color = n.carriers.color
    if not n.carriers[color.isna() | color.eq("")].empty:
        complain(strict)


ALL = ["unknown_buses", "unknown_carriers", "time_series", "static_power_attrs", "time_series_power_attrs", "nans_for_component_default_attrs", "zero_impedances",
       "zero_s_nom", "assets", "generators", "disconnected_buses", "investment_periods", "shapes", "dtypes"]


def check(n, check_dtypes=False, strict=None):
    """every check once, each strict exactly if asked for"""
    if strict is None:
        strict = []
    if "all" in strict:
        strict = ALL
    if not all(s in ALL for s in strict):
        raise ValueError("unknown check")
    n.calculate_dependent_values()
    for c in n.iterate_components():
        consistency.check_for_unknown_buses(n, c, "unknown_buses" in strict)
        consistency.check_for_unknown_carriers(n, c, "unknown_carriers" in strict)
        consistency.check_time_series(n, c, "time_series" in strict)
        consistency.check_static_power_attributes(n, c, "static_power_attrs" in strict)
        consistency.check_time_series_power_attributes(n, c, "time_series_power_attrs" in strict)
        consistency.check_nans_for_component_default_attrs(n, c, "nans_for_component_default_attrs" in strict)
        consistency.check_for_zero_impedances(n, c, "zero_impedances" in strict)
        consistency.check_for_zero_s_nom(c, "zero_s_nom" in strict)
        consistency.check_assets(n, c, "assets" in strict)
        consistency.check_generators(c, "generators" in strict)
        if check_dtypes:
            consistency.check_dtypes_(c, "dtypes" in strict)
    consistency.check_for_disconnected_buses(n, "disconnected_buses" in strict)
    consistency.check_investment_periods(n, "investment_periods" in strict)
    consistency.check_shapes(n, "shapes" in strict)


PLOT = ["unknown_carriers", "missing_carrier_colors"]


def plot_check(n, strict=None):
    if strict is None:
        strict = []
    if "all" in strict:
        strict = PLOT
    if not all(s in PLOT for s in strict):
        raise ValueError("unknown check")
    for c in n.iterate_components():
        consistency.check_for_unknown_carriers(n, c, strict="unknown_carriers" in strict)
    consistency.check_for_missing_carrier_colors(n, strict="missing_carrier_colors" in strict)

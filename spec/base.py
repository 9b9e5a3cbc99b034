"""Reference snippets of the primitives every part relies on."""
import numpy as np
import pandas as pd
from numpy import hstack, ravel
from pypsa.common import as_index
from pypsa.descriptors import get_active_assets


def switchable_as_dense(n, component, attr, snapshots=None, inds=None):
    """time series where one is given, the static value everywhere else"""
    sns = as_index(n, snapshots, "snapshots")
    values = n.static(component)[attr]
    series = n.dynamic(component).get(attr, pd.DataFrame(index=sns)).loc[sns]
    names = values.index
    if inds is not None:
        names = names.intersection(inds)
    constant = names.difference(series.columns)
    filled = pd.DataFrame({**values[constant]}, index=sns)
    return pd.concat([series, filled], axis=1, names=sns.names)[names]


def active_assets(c, investment_period=None):
    """active flag; with a period: active and built before and not yet retired in one of the periods"""
    if investment_period is None:
        return c.static.active
    if not {"build_year", "lifetime"}.issubset(c.static):
        return c.static.active
    alive = {}
    for period in np.atleast_1d(investment_period):
        if period not in c.n_save.investment_periods:
            raise ValueError("unknown period")
        alive[period] = (c.static.build_year <= period) & (period < c.static.build_year + c.static.lifetime)
    return pd.DataFrame(alive).any(axis=1) & c.static.active


def activity_mask(n, c, sns=None, index=None):
    """snapshot x asset: active in the investment period of the snapshot"""
    times = as_index(n, sns, "snapshots")
    if getattr(n, "_multi_invest", False):
        per_period = {p: get_active_assets(n, c, p) for p in n.investment_periods}
        mask = pd.concat(per_period, axis=1).T.reindex(n.snapshots, level=0).loc[times]
    else:
        active = get_active_assets(n, c)
        mask = pd.DataFrame(np.tile(active, (len(times), 1)), index=times, columns=active.index)
    if index is not None:
        mask = mask.reindex(columns=index)
    return mask


def meshed_buses(n, threshold=45):
    """buses mentioned by more than `threshold` component ports"""
    mentioned = pd.Series(hstack([ravel(c.static.filter(like="bus")) for c in n.iterate_components()]))
    counts = mentioned[mentioned != ""].value_counts()
    return counts.index[counts > threshold].sort_values()

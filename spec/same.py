"""Reference snippets of comparing networks."""
import numpy as np
import pandas as pd
import pandas.testing as pd_testing
from pypsa.clustering import ClusteringAccessor
from pypsa.common import equals
from pypsa.definitions.components import ComponentsStore
from pypsa.definitions.structures import Dict
from pypsa.optimization.optimize import OptimizationAccessor
from pypsa.plot.accessor import PlotAccessor
from pypsa.statistics import StatisticsAccessor
from pypsa.statistics.abstract import AbstractStatisticsAccessor


def same(a, b, ignored_classes=None, log_mode="silent", path=""):
    """equal in every part; types, order of entries and dtypes of tables aside, exactly"""
    if log_mode not in ["silent", "verbose", "strict"]:
        raise ValueError("mode")

    def differ():
        if log_mode == "strict":
            raise ValueError("differ")
        return False

    if not isinstance(a, type(b)) and not np.issubdtype(type(a), type(b)) and not np.issubdtype(type(b), type(a)):
        return differ()
    if ignored_classes is not None and isinstance(a, tuple(ignored_classes)):
        return True
    if isinstance(a, np.ndarray):
        return True if np.array_equal(a, b, equal_nan=True) else differ()
    if isinstance(a, (pd.DataFrame, pd.Series, pd.Index)):
        if a.empty and b.empty or a.equals(b):
            return True
        try:
            pd_testing.assert_frame_equal(a, b, check_dtype=False, check_exact=True)
        except AssertionError:
            return differ()
        return True
    if isinstance(a, ComponentsStore):
        if a.keys() != b.keys():
            return differ()
        for k in a.keys():
            if not equals(a[k], b[k], ignored_classes, log_mode, path):
                return False
        return True
    if isinstance(a, (dict, Dict)):
        for k, v in a.items():
            if k not in b:
                return differ()
            if not equals(v, b[k], ignored_classes, log_mode, path):
                return False
        for k in b:
            if k not in a:
                return differ()
        return True
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return differ()
        for i, v in enumerate(a):
            if not equals(v, b[i], ignored_classes, log_mode, path):
                return False
        return True
    if pd.isna(a) and pd.isna(b):
        return True
    return True if a == b else differ()


def same_network(self, other, log_mode="silent"):
    """every attribute both networks have is equal, and both have the same"""
    if not isinstance(other, self.__class__):
        return False
    same = True
    if self.__dict__.keys() ^ other.__dict__.keys():
        if log_mode == "strict":
            raise ValueError("attributes")
        same = False
    skipped = [OptimizationAccessor, ClusteringAccessor, StatisticsAccessor, PlotAccessor, AbstractStatisticsAccessor]
    for key, value in self.__dict__.items():
        if key in other.__dict__:
            if not equals(value, other.__dict__[key], ignored_classes=skipped, log_mode=log_mode, path=key):
                same = False
    return same


def same_components(self, other, log_mode="silent"):
    return (equals(self.ctype, other.ctype, log_mode=log_mode, path="") and equals(self.static, other.static, log_mode=log_mode, path="")
            and equals(self.dynamic, other.dynamic, log_mode=log_mode, path=""))

"""Reference for the shape of the grid: graphs, matrices, sub-networks, cycles, outages."""
import networkx as nx
import numpy as np
import pandas as pd
import scipy as sp
from numpy import r_
from scipy.sparse import csgraph, csr_matrix, dok_matrix
from pypsa.descriptors import OrderedGraph
from pypsa.networks import SubNetwork
from pypsa.descriptors import get_active_assets
from pypsa.pf import calculate_PTDF
import pypsa


def bodf(sub_network, skip_pre=False):
    """flow on a branch caused by one unit of flow lost on another"""
    if not skip_pre:
        calculate_PTDF(sub_network)
    count = sub_network.PTDF.shape[0]
    sensitivity = sub_network.PTDF * sub_network.K
    own = 1 - np.diag(sensitivity)
    sub_network.BODF = sensitivity * csr_matrix((1 / own, (r_[:count], r_[:count])))
    np.fill_diagonal(sub_network.BODF, -1)


def outages(n, snapshots=None, branch_outages=None):
    """flows after each outage, next to the flows without"""
    if snapshots is None:
        snapshots = n.snapshots
    now = snapshots[0] if pd.api.types.is_list_like(snapshots) else snapshots
    n.lpf(now)
    branches = n.passive_branches()
    if branch_outages is None:
        branch_outages = branches.index[branches.active]
    base = pd.concat({c: n.dynamic(c).p0.loc[now] for c in n.passive_branch_components})
    for sub in n.sub_networks.obj:
        sub._branches = sub.branches().query("active")
        if not sub._branches.empty:
            sub.calculate_BODF()
    flows = base.to_frame("base")
    for branch in branch_outages:
        if not isinstance(branch, tuple):
            branch = ("Line", branch)
        sub = n.sub_networks.obj[branches.sub_network[branch]]
        column = sub.BODF[:, sub._branches.index.get_loc(branch)]
        change = pd.Series(column * base[branch], sub._branches.index)
        after = base.add(change, fill_value=0)
        after.name = branch
        flows = pd.concat([flows, after], axis=1)
    return flows


def network_graph(n, branch_components=None, weight=None, inf_weight=False, include_inactive=True):
    """every bus of the network, an edge for every branch"""
    kinds = n.branch_components if branch_components is None else set(branch_components)
    return _graph(n, kinds, n.buses.index, weight, inf_weight, include_inactive)


def sub_graph(n, branch_components=None, weight=None, inf_weight=False, include_inactive=True):
    """every bus of the sub-network, an edge for every passive branch"""
    kinds = n.n.passive_branch_components if branch_components is None else branch_components
    return _graph(n, kinds, n.buses_i(), weight, inf_weight, include_inactive)


def _graph(n, kinds, buses, weight, inf_weight, include_inactive):
    out = OrderedGraph()
    out.add_nodes_from(buses)

    def edges():
        for c in n.iterate_components(kinds):
            rows = slice(None) if include_inactive else c.static.query("active").index
            for branch in c.static.loc[rows].itertuples():
                data = {}
                if weight is not None:
                    data = dict(weight=getattr(branch, weight, 0))
                    if np.isinf(data["weight"]) and inf_weight is not True:
                        if inf_weight is False:
                            continue
                        data["weight"] = inf_weight
                yield (branch.bus0, branch.bus1, (c.name, branch.Index), data)

    out.add_edges_from(edges())
    return out


def network_adjacency(n, branch_components=None, investment_period=None, busorder=None, weights=None):
    """one entry per branch active in the period, at (bus0, bus1)"""
    kinds = n.branch_components if branch_components is None else branch_components
    return _adjacency(n, kinds, investment_period, n.buses.index if busorder is None else busorder, weights)


def sub_adjacency(n, branch_components=None, investment_period=None, busorder=None, weights=None):
    kinds = n.n.passive_branch_components if branch_components is None else branch_components
    return _adjacency(n, kinds, investment_period, n.buses_i() if busorder is None else busorder, weights)


def _adjacency(n, kinds, investment_period, order, weights):
    size = len(order)
    rows, cols, vals = [], [], []
    count = 0
    for c in n.iterate_components(kinds):
        names = c.static[c.get_active_assets(investment_period)].index
        count += len(names)
        rows.append(order.get_indexer(c.static.loc[names, "bus0"]))
        cols.append(order.get_indexer(c.static.loc[names, "bus1"]))
        vals.append(np.ones(len(names)) if weights is None else weights[c.name][names].values)
    if count == 0:
        return sp.sparse.coo_matrix((size, size))
    rows, cols, vals = np.concatenate(rows), np.concatenate(cols), np.concatenate(vals)
    return sp.sparse.coo_matrix((vals, (rows, cols)), shape=(size, size))


def network_incidence(n, branch_components=None, busorder=None):
    """bus x active branch: +1 where the branch starts, -1 where it ends"""
    kinds = n.branch_components if branch_components is None else branch_components
    return _incidence(n, kinds, n.buses.index if busorder is None else busorder)


def sub_incidence(n, branch_components=None, busorder=None):
    kinds = n.n.passive_branch_components if branch_components is None else branch_components
    return _incidence(n, kinds, n.buses_i() if busorder is None else busorder)


def _incidence(n, kinds, order):
    starts, ends = [], []
    count = 0
    for c in n.iterate_components(kinds):
        names = c.static.query("active").index
        count += len(c.static.loc[names])
        starts.append(order.get_indexer(c.static.loc[names, "bus0"]))
        ends.append(order.get_indexer(c.static.loc[names, "bus1"]))
    starts, ends = np.concatenate(starts), np.concatenate(ends)
    signs = np.r_[np.ones(count), -np.ones(count)]
    return sp.sparse.csr_matrix((signs, (np.r_[starts, ends], np.r_[:count, :count])), (len(order), count))


def cycles(sub_network, weight="x_pu"):
    """signed incidence of branches and independent cycles"""
    starts = sub_network.branches()["bus0"]
    order = starts.index
    multi = sub_network.graph(weight=weight, inf_weight=False, include_inactive=False)
    simple = nx.Graph(multi)
    basis = nx.cycle_basis(simple)
    parallel = len(multi.edges()) - len(simple.edges())
    sub_network.C = dok_matrix((len(starts), len(basis) + parallel))
    for j, cycle in enumerate(basis):
        for i in range(len(cycle)):
            here, there = cycle[i], cycle[(i + 1) % len(cycle)]
            k = order.get_loc(next(iter(multi[here][there].keys())))
            sub_network.C[k, j] += 1 if starts.iat[k] == here else -1
    column = len(basis)
    for u, v in simple.edges():
        twins = list(multi[u][v].keys())
        if len(twins) > 1:
            a = order.get_loc(twins[0])
            for twin in twins[1:]:
                b = order.get_loc(twin)
                sub_network.C[a, column] = 1
                sub_network.C[b, column] = -1 if starts.iat[b] == starts.iat[a] else 1
                column += 1


def topology(self, investment_period=None, skip_isolated_buses=False):
    """one sub-network per set of buses connected by passive branches"""
    links = self.adjacency_matrix(branch_components=self.passive_branch_components, investment_period=investment_period)
    count, label = csgraph.connected_components(links, directed=False)
    for old in self.sub_networks.index:
        self.remove("SubNetwork", old)
    for i in np.arange(count):
        members = (label == i).nonzero()[0]
        if not (skip_isolated_buses and len(members) == 1):
            self.add("SubNetwork", i, carrier=self.buses.carrier.iat[members[0]])
    self.sub_networks["obj"] = [SubNetwork(self, name) for name in self.sub_networks.index]
    self.buses.loc[:, "sub_network"] = label.astype(str)
    for c in self.iterate_components(self.passive_branch_components):
        c.static["sub_network"] = c.static.bus0.map(self.buses["sub_network"])
        if investment_period is not None:
            c.static.loc[~get_active_assets(self, c.name, investment_period), "sub_network"] = np.nan
    for sub in self.sub_networks.obj:
        pypsa.pf.find_cycles(sub)
        sub.find_bus_controls()

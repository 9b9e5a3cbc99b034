"""Reference snippets of the spatial clustering."""
from importlib.util import find_spec

import networkx as nx
import numpy as np
import pandas as pd
from packaging.version import Version, parse
from pypsa import io
from pypsa.clustering.spatial import Clustering, aggregatebuses, aggregatelines, aggregateoneport, get_clustering_from_busmap, busmap_by_greedy_modularity, busmap_by_hac, busmap_by_kmeans
from pypsa.geo import haversine_pts

TOTAL = pd.Series.sum

ASSETS = {
    "p": "sum", "q": "sum", "p_set": "sum", "q_set": "sum", "inflow": "sum", "weight": "sum",
    "p_nom": TOTAL, "p_nom_max": TOTAL, "e_nom": TOTAL, "e_nom_max": TOTAL, "p_nom_min": "sum", "e_nom_min": "sum",
    "ramp_limit_up": "mean", "ramp_limit_down": "mean", "ramp_limit_start_up": "mean", "ramp_limit_shut_down": "mean",
    "build_year": lambda x: 0, "lifetime": lambda x: np.inf, "control": lambda x: "",
    "p_max_pu": "capacity_weighted_average", "p_min_pu": "capacity_weighted_average",
    "capital_cost": "capacity_weighted_average", "marginal_cost": "capacity_weighted_average",
    "efficiency": "capacity_weighted_average", "max_hours": "capacity_weighted_average",
}

BUSES = {"x": "mean", "y": "mean", "v_nom": "max", "v_mag_pu_max": "min", "v_mag_pu_min": "max", "generator": lambda x: ""}

LINES = {
    "r": "reciprocal_voltage_weighted_average", "x": "reciprocal_voltage_weighted_average",
    "g": "voltage_weighted_average", "b": "voltage_weighted_average",
    "terrain_factor": "mean",
    "s_nom": TOTAL, "s_nom_max": TOTAL, "s_nom_min": "sum", "num_parallel": "sum", "s_nom_extendable": "any",
    "s_min_pu": "capacity_weighted_average", "s_max_pu": "capacity_weighted_average",
    "capital_cost": "length_capacity_weighted_average",
    "v_ang_min": "max", "v_ang_max": "min",
    "lifetime": "capacity_weighted_average", "build_year": "capacity_weighted_average",
}


def shares(x):
    """shares of the total, the same for everyone if there is no total"""
    total = x.sum(skipna=False)
    return x / x.sum() if total > 0 else pd.Series(1.0 / len(x), x.index)


def agreed(x):
    """the value all have in common"""
    first = x.iat[0]
    assert (x == first).all() or x.isnull().all()
    return first


def consense(component, attr):
    def same(x):
        first = x.iat[0]
        assert (x == first).all() or x.isnull().all()
        return first
    return same


def chosen(strategies, keys, component):
    """a strategy for each key: the members have to agree on what has none"""
    for k in set(keys).difference(strategies):
        strategies[k] = consense(component, k)
    return {k: strategies[k] for k in keys}


def one_name(m, join=" "):
    return m if m.nlevels <= 1 else m.to_flat_index().str.join(join).str.strip()


def inputs(static, attrs):
    """the columns which are no results"""
    results = attrs.index[attrs.static & attrs.status.str.startswith("Output")]
    return [k for k in static.columns if k not in results]


def buses(n, busmap, custom_strategies):
    attrs = n.components["Bus"]["attrs"]
    table = n.buses.groupby(busmap).agg(chosen({**BUSES, **custom_strategies}, inputs(n.buses, attrs), "Bus"))
    table.index = one_name(table.index).rename("Bus")
    return table


def assets(n, busmap, component, carriers=None, buses=None, with_time=True, custom_strategies=dict()):
    everything = n.static(component)
    attrs = n.components[component]["attrs"]
    by_carrier = "carrier" in everything.columns
    if by_carrier:
        member = everything.carrier.isin(everything.carrier.unique() if carriers is None else carriers)
    else:
        member = pd.Series(True, everything.index)
    if buses is not None:
        member = member | everything.bus.isin(buses)

    merged = everything[member]
    merged = merged.assign(bus=merged.bus.map(busmap))
    group = [merged.bus, merged.carrier] if by_carrier else merged.bus
    strategies = {**ASSETS, **custom_strategies}
    how = chosen(strategies, inputs(merged, attrs), component)
    sizes = merged.columns.intersection({"p_nom", "e_nom"})
    if len(sizes):
        by_size = merged[sizes[0]].groupby(group, axis=0).transform(shares)
    if "weight" in merged.columns:
        by_weight = merged.weight.groupby(group, axis=0).transform(shares)
    for k, v in how.items():
        if v == "weighted_average":
            merged[k] = merged[k] * by_weight
            how[k] = "sum"
        elif v == "capacity_weighted_average":
            merged[k] = merged[k] * by_size
            how[k] = "sum"
        elif v == "weighted_min":
            merged[k] = merged[k] / by_weight
            how[k] = "min"
    new = merged.groupby(group).agg(how)
    new.index = one_name(new.index).rename(component)
    kept = everything[~member]
    kept = kept.assign(bus=kept.bus.map(busmap))
    static = pd.concat([new, kept], sort=False)
    static = static.fillna(attrs.default)

    dynamic = {}
    if with_time:
        how = chosen(strategies, n.dynamic(component), component)
        for attr, given in n.dynamic(component).items():
            if given.empty:
                dynamic[attr] = given
                continue
            values = n.get_switchable_as_dense(component, attr)
            part = values.loc[:, member]
            if how[attr] == "weighted_average":
                part = (part * by_weight).T.groupby(group).sum().T
            elif how[attr] == "capacity_weighted_average":
                part = (part * by_size).T.groupby(group).sum().T
            elif how[attr] == "weighted_min":
                part = (part / by_weight).T.groupby(group).min().T
            else:
                part = part.T.groupby(group).agg(how[attr]).T
            part.columns = one_name(part.columns).rename(component)
            series = pd.concat([part, values.loc[:, ~member]], axis=1, sort=False)
            if attr in static:
                series = series.loc[:, ~(series == static[attr]).all()]
            dynamic[attr] = series
    return static, dynamic


def lines(n, busmap, line_length_factor=1.0, with_time=True, custom_strategies=None, bus_strategies=None, custom_line_groupers=[]):
    attrs = n.components["Line"]["attrs"]
    everything = n.static("Line")
    names = everything.index[everything.bus0.map(busmap) != everything.bus1.map(busmap)]
    between = everything.loc[names]
    old_length = between.length
    old_voltage = between.bus0.map(n.buses.v_nom)
    at_bus = {**BUSES, **(bus_strategies or {})}
    joined = n.buses[["x", "y", "v_nom"]].groupby(busmap).agg({k: at_bus[k] for k in ("x", "y", "v_nom")})

    merged = between.assign(bus0=between.bus0.map(busmap), bus1=between.bus1.map(busmap))
    backwards = merged.bus0 > merged.bus1
    merged.loc[backwards, ["bus0", "bus1"]] = merged.loc[backwards, ["bus1", "bus0"]].values
    strategies = {**LINES, **(custom_strategies or {})}
    how = chosen(strategies, inputs(merged, attrs), "Line")
    group = merged.groupby(["bus0", "bus1", *custom_line_groupers]).ngroup().astype(str)
    place = joined[["x", "y"]]
    merged = merged.assign(length=line_length_factor * haversine_pts(place.loc[merged.bus0], place.loc[merged.bus1]))
    longer = (merged.length / old_length).where(old_length > 0, merged.length)
    voltage = pd.concat([merged.bus0.map(joined.v_nom), merged.bus1.map(joined.v_nom)], axis=1).max(1)
    squared = (old_voltage / voltage) ** 2
    by_size = merged.groupby(group).s_nom.transform(shares)
    for k, v in how.items():
        if v == "capacity_weighted_average":
            merged[k] = merged[k] * by_size
            how[k] = "sum"
        elif v == "reciprocal_voltage_weighted_average":
            merged[k] = squared / (longer * merged[k])
            how[k] = lambda x: 1.0 / x.sum()
        elif v == "voltage_weighted_average":
            merged[k] = squared * longer * merged[k]
            how[k] = "sum"
        elif v == "length_capacity_weighted_average":
            merged[k] = merged[k] * longer * by_size
            how[k] = "sum"
    static = merged.groupby(group).agg(how)

    dynamic = {}
    if with_time:
        how = chosen(strategies, n.dynamic("Line"), "Line")
        for attr, given in n.dynamic("Line").items():
            if given.empty:
                dynamic[attr] = given
                continue
            values = n.get_switchable_as_dense("Line", attr, inds=names)
            if how[attr] == "capacity_weighted_average":
                series = (values * by_size).T.groupby(group).sum().T
            else:
                series = values.T.groupby(group).agg(how[attr]).T
            if attr in static:
                series = series.loc[:, ~(series == static[attr]).all()]
            dynamic[attr] = series
    return static, dynamic, group


def clustered(n, busmap, with_time=True, line_length_factor=1.0, aggregate_generators_weighted=False, aggregate_one_ports=None, aggregate_generators_carriers=None,
              scale_link_capital_costs=True, bus_strategies=dict(), one_port_strategies=dict(), generator_strategies=dict(), line_strategies=dict(),
              aggregate_generators_buses=None, custom_line_groupers=[]):
    new = n.__class__()
    hubs = aggregatebuses(n, busmap, custom_strategies=bus_strategies)
    lines, lines_t, linemap = aggregatelines(n, busmap, line_length_factor, with_time=with_time, custom_strategies=line_strategies, bus_strategies=bus_strategies,
                                             custom_line_groupers=custom_line_groupers)
    new.add("Bus", hubs.index, **hubs)
    new.add("Line", lines.index, **lines)
    new.global_constraints = n.global_constraints.copy()
    if with_time:
        new.set_snapshots(n.snapshots)
        new.snapshot_weightings = n.snapshot_weightings.copy()
        if not n.investment_periods.empty:
            new.set_investment_periods(n.investment_periods)
            new.investment_period_weightings = n.investment_period_weightings.copy()
        for attr, series in lines_t.items():
            if not series.empty:
                io._import_series_from_df(new, series, "Line", attr)

    rest = n.one_port_components.copy()
    if aggregate_generators_weighted:
        rest.remove("Generator")
        static, dynamic = aggregateoneport(n, busmap, "Generator", carriers=aggregate_generators_carriers, buses=aggregate_generators_buses, with_time=with_time,
                                           custom_strategies=generator_strategies)
        new.add("Generator", static.index, **static)
        if with_time:
            for attr, series in dynamic.items():
                if not series.empty:
                    io._import_series_from_df(new, series, "Generator", attr)
    for kind in {} if aggregate_one_ports is None else aggregate_one_ports:
        rest.remove(kind)
        static, dynamic = aggregateoneport(n, busmap, component=kind, with_time=with_time, custom_strategies=one_port_strategies.get(kind, {}))
        new.add(kind, static.index, **static)
        for attr, series in dynamic.items():
            io._import_series_from_df(new, series, kind, attr)

    for c in n.iterate_components(rest):
        moved = c.static.assign(bus=c.static.bus.map(busmap)).dropna(subset=["bus"])
        new.add(c.name, moved.index, **moved)
    if with_time:
        for c in n.iterate_components(rest):
            present = new.static(c.name).index
            for attr, series in c.dynamic.items():
                if not series.empty:
                    io._import_series_from_df(new, series[series.columns.intersection(present)], c.name, attr)

    ends = {"bus0": n.links.bus0.map(busmap), "bus1": n.links.bus1.map(busmap)}
    for port in [k[3:] for k in n.links.columns if k.startswith("bus") and k not in ["bus0", "bus1"]]:
        end = n.links["bus" + port]
        ends["bus" + port] = end.map(busmap).where(end != "", "")
    links = n.links.assign(**ends).dropna(subset=list(ends))
    links = links.loc[lambda df: df.bus0 != df.bus1]
    distance = haversine_pts(hubs.loc[links["bus0"], ["x", "y"]], hubs.loc[links["bus1"], ["x", "y"]])
    links["length"] = np.where(links.length.notnull() & (links.length > 0), line_length_factor * distance, 0)
    if scale_link_capital_costs:
        links["capital_cost"] = links["capital_cost"] * (links.length / n.links.length).fillna(1)
    new.add("Link", links.index, **links)
    if with_time:
        for attr, series in n.links_t.items():
            if not series.empty:
                io._import_series_from_df(new, series[series.columns.intersection(links.index)], "Link", attr)
    new.add("Carrier", n.carriers.index, **n.carriers)
    new.determine_network_topology()
    return Clustering(new, busmap, linemap)


def by_place(n, bus_weightings, n_clusters, buses_i=None, **kwargs):
    """buses that are close together, counted by their weight"""
    if find_spec("sklearn") is None:
        raise ModuleNotFoundError("sklearn")
    from sklearn.cluster import KMeans

    who = n.buses.index if buses_i is None else buses_i
    place = n.buses.loc[who, ["x", "y"]].values
    kwargs.setdefault("n_init", "auto")
    means = KMeans(init="k-means++", n_clusters=n_clusters, **kwargs)
    means.fit(place.repeat(bus_weightings.reindex(who).astype(int), axis=0))
    return pd.Series(data=means.predict(place), index=who).astype(str)


def by_similarity(n, n_clusters, buses_i=None, branch_components=None, feature=None, affinity="euclidean", linkage="ward", **kwargs):
    """connected buses that are alike"""
    if find_spec("sklearn") is None:
        raise ModuleNotFoundError("sklearn")
    from sklearn.cluster import AgglomerativeClustering

    who = n.buses.index if buses_i is None else buses_i
    kinds = n.branch_components if branch_components is None else branch_components
    features = pd.DataFrame(index=who, columns=[""], data=0) if feature is None else feature
    where = n.buses.index.get_indexer(who)
    neighbours = n.adjacency_matrix(branch_components=kinds).tocsc()[where][:, where]
    labels = AgglomerativeClustering(n_clusters=n_clusters, connectivity=neighbours, metric=affinity, linkage=linkage, **kwargs).fit_predict(features)
    return pd.Series(labels, index=who, dtype=str)


def by_modularity(n, n_clusters, buses_i=None):
    """buses that are tied by strong lines"""
    if parse(nx.__version__) < Version("2.8"):
        raise NotImplementedError("networkx")
    buses_i = n.buses.index if buses_i is None else buses_i
    n.calculate_dependent_values()
    lines = n.lines.query("bus0 in @buses_i and bus1 in @buses_i")
    ties = lines[["bus0", "bus1"]].assign(weight=lines.s_nom / abs(lines.r + 1j * lines.x)).set_index(["bus0", "bus1"])
    graph = nx.Graph()
    graph.add_nodes_from(buses_i)
    graph.add_edges_from((u, v, {"weight": w}) for (u, v), w in ties.itertuples())
    groups = nx.community.greedy_modularity_communities(graph, best_n=n_clusters, cutoff=n_clusters, weight="weight")
    busmap = pd.Series(buses_i, buses_i)
    for c in np.arange(len(groups)):
        busmap.loc[list(groups[c])] = str(c)
    busmap.index = busmap.index.astype(str)
    return busmap


def by_stubs(n, matching_attrs=None):
    """dead ends belong to the bus they hang on"""
    busmap = pd.Series(n.buses.index, n.buses.index)
    graph = n.graph()

    def alike(u, v):
        if matching_attrs is None:
            return True
        return (n.buses.loc[u, matching_attrs] == n.buses.loc[v, matching_attrs]).all()

    while True:
        ends = []
        for u in graph.nodes:
            around = list(graph.adj[u].keys())
            if len(around) == 1:
                (v,) = around
                if alike(u, v):
                    busmap[busmap == u] = v
                    ends.append(u)
        graph.remove_nodes_from(ends)
        if not ends:
            break
    return busmap


def kmeans(n, bus_weightings, n_clusters, line_length_factor=1.0, **kwargs):
    return get_clustering_from_busmap(n, busmap_by_kmeans(n, bus_weightings, n_clusters, **kwargs), line_length_factor=line_length_factor)


def hac(n, n_clusters, buses_i=None, branch_components=None, feature=None, affinity="euclidean", linkage="ward", line_length_factor=1.0, **kwargs):
    busmap = busmap_by_hac(n, n_clusters, buses_i, branch_components, feature, affinity, linkage, **kwargs)
    return get_clustering_from_busmap(n, busmap, line_length_factor=line_length_factor)


def modularity(n, n_clusters, buses_i=None, line_length_factor=1.0):
    return get_clustering_from_busmap(n, busmap_by_greedy_modularity(n, n_clusters, buses_i), line_length_factor=line_length_factor)


def distance(a, b):
    """great circle distance of points given by longitude and latitude in degrees, in kilometres"""
    lon, lat = np.deg2rad(np.asarray(a)).T
    lon2, lat2 = np.deg2rad(np.asarray(b)).T
    half = np.sin((lat - lat2) / 2) ** 2 + np.cos(lat) * np.cos(lat2) * np.sin((lon - lon2) / 2) ** 2
    return 6371.000 * 2 * np.arctan2(np.sqrt(half), np.sqrt(1 - half))


def distances(a, b):
    """of every point of a to every point of b"""
    def points(p):
        p = np.asarray(p)
        if p.ndim == 1:
            p = p[np.newaxis, :]
        if p.shape[1] != 2:
            raise ValueError("points")
        return p

    a, b = points(a), points(b)
    return distance(a[np.newaxis, :], b[:, np.newaxis])

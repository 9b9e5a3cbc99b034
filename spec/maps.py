"""Reference snippets of maps of networks."""
import logging

import cartopy
import geopandas as gpd
import networkx as nx
import numpy as np
import pandas as pd
import plotly.graph_objects as go
import plotly.offline as pltly
from matplotlib.collections import LineCollection, PatchCollection
from matplotlib.patches import Circle, FancyArrow, Patch, Polygon, Wedge
import matplotlib.colors as mcolors
import matplotlib.pyplot as plt
import pypsa.plot.maps.interactive
import pypsa.plot.maps.static
from shapely import linestrings
from pypsa.geo import compute_bbox, get_projected_area_factor, get_projection_from_crs
from pypsa.plot.maps.common import apply_layouter, as_branch_series
from pypsa.plot.maps.static import MapPlotter, _apply_cmap
from pypsa.common import _convert_to_series


# ---- positions
def new_plotter(self, n, layout=None, boundaries=None, margin=0.05, jitter=None, buses=None):
    self._n = n
    self._x = None
    self._y = None
    self._layout = layout
    self._boundaries = boundaries
    self._margin = margin
    self._buses = buses
    self._ax = None
    self._area_factor = 1.0
    if jitter:
        self.add_jitter(jitter)


def get_x(self):
    if self._x is None:
        self.set_layout()
    return self._x


def get_y(self):
    if self._y is None:
        self.set_layout()
    return self._y


def get_boundaries(self):
    if self._boundaries is None:
        self.set_boundaries(None, self._margin, self._buses)
        assert self._boundaries is not None
    return self._boundaries


def set_boundaries_to(self, value):
    if value is not None and len(value) != 4:
        raise ValueError("four values")
    self._boundaries = value


def set_area_factor(self, value):
    if value is None:
        self._area_factor = 1.0
        return
    if not isinstance(value, (int, float)):
        raise ValueError("number")
    self._area_factor = float(value)


def layout(self, layouter=None):
    at = self.n.buses[["x", "y"]]
    if layouter or self._layout or (at.isnull() | (at == 0)).all().all():
        self.x, self.y = apply_layouter(self.n, layouter or self._layout, inplace=False)
    else:
        self.x = self.n.buses["x"]
        self.y = self.n.buses["y"]
    self.crs = self.n.crs


def extent(self, boundaries=None, margin=0.05, buses=None):
    if boundaries is not None:
        self.boundaries = boundaries
        return
    which = self.n.buses.index if buses is None else buses
    low, high = compute_bbox(self.x[which], self.y[which], margin)
    self.boundaries = (low[0], high[0], low[1], high[1])


def jittered(self, jitter):
    rng = np.random.default_rng()
    self.x = self.x + rng.uniform(low=-jitter, high=jitter, size=len(self.x))
    self.y = self.y + rng.uniform(low=-jitter, high=jitter, size=len(self.y))
    return self.x, self.y


def placed(n, layouter=None, inplace=False):
    graph = n.graph()
    if layouter is None:
        layouter = nx.planar_layout if nx.check_planarity(graph)[0] else nx.kamada_kawai_layout
    at = pd.DataFrame(layouter(graph)).T.rename({0: "x", 1: "y"}, axis=1)
    if inplace:
        n.buses[["x", "y"]] = at
        return None
    return at.x, at.y


def bbox(x, y, margin=0):
    at = np.asarray((x, y))
    low = np.nanmin(at, axis=1)
    high = np.nanmax(at, axis=1)
    size = high - low
    return tuple(low - margin * size), tuple(high + margin * size)


def projected(ax, original_crs=4326):
    if not hasattr(ax, "projection"):
        return 1
    x1, x2, y1, y2 = ax.get_extent()
    at = get_projection_from_crs(original_crs).transform_points(ax.projection, np.array([x1, x2]), np.array([y1, y2]))
    return np.sqrt(abs((x2 - x1) * (y2 - y1)) / abs((at[0] - at[1])[:2].prod()))


# ---- buses
def pies(self, sizes, colors, alpha, split_circles):
    drawn = []
    for bus in sizes.index.unique(level=0):
        of_bus = sizes.loc[bus]
        if split_circles:
            of_bus = of_bus * 2
            parts = (of_bus[of_bus > 0], of_bus[of_bus < 0])
            begins = (0.0, 1.0)
            angle = 180
        else:
            parts = (of_bus[of_bus > 0],)
            begins = (0.25,)
            angle = 360
        for part, begin in zip(parts, begins):
            radius = abs(part.sum()) ** 0.5
            ratios = abs(part) if radius == 0.0 else part / part.sum()
            for what, ratio in ratios.items():
                drawn.append(Wedge((self.x_trans.at[bus], self.y_trans.at[bus]), radius, angle * begin, angle * (begin + ratio), facecolor=colors[what], alpha=alpha))
                begin = begin + ratio
    return drawn


def circles(self, sizes, colors, alpha):
    drawn = []
    for bus in sizes.index[(sizes != 0) & ~sizes.isna()]:
        drawn.append(Circle((self.x_trans.at[bus], self.y_trans.at[bus]), sizes.at[bus] ** 0.5, facecolor=colors.at[bus], alpha=alpha))
    return drawn


# ---- branches
def flow_given(self, flow, c_name):
    if isinstance(flow, pd.Series):
        return flow
    if flow in self.n.snapshots:
        return self.n.dynamic(c_name).p0.loc[flow]
    if isinstance(flow, str) or callable(flow):
        return self.n.dynamic(c_name).p0.agg(flow, axis=0)
    if isinstance(flow, (int, float)):
        return pd.Series(flow, index=self.n.static(c_name).index)
    if flow is not None:
        raise ValueError("flow")
    return None


def collection(self, c, widths, colors, alpha, geometry, auto_scale_branches=True):
    if not auto_scale_branches:
        if geometry:
            raise ValueError("geometry")
        return self._get_branch_collection_patches(c, widths, colors, alpha)
    return self._get_branch_collection_lines(c, widths, colors, alpha, geometry)


def branch_lines(self, c, widths, colors, alpha, geometry):
    idx = widths.index
    if geometry:
        from shapely.geometry import LineString
        from shapely.wkt import loads
        texts = c.static.geometry[idx].fillna("")
        strings = texts[lambda ds: ds != ""].map(loads)
        if not all(isinstance(ls, LineString) for ls in strings):
            raise ValueError("lines")
        segments = [np.asarray(ls.coords) for ls in strings]
        idx = strings.index
    else:
        begin = c.static.bus0[idx]
        end = c.static.bus1[idx]
        segments = np.asarray(((begin.map(self.x_trans), begin.map(self.y_trans)), (end.map(self.x_trans), end.map(self.y_trans)))).transpose(2, 0, 1)
    return LineCollection(list(segments), linewidths=widths[idx], antialiaseds=(1,), colors=colors[idx], alpha=alpha[idx])


def branch_patches(self, c, widths, colors, alpha):
    patches = []
    facecolors = []
    alphas = []
    for i in widths.index:
        x0 = c.static.bus0.map(self.x_trans)[i]
        y0 = c.static.bus0.map(self.y_trans)[i]
        x1 = c.static.bus1.map(self.x_trans)[i]
        y1 = c.static.bus1.map(self.y_trans)[i]
        width = widths[i] * self.area_factor
        dx = x1 - x0
        dy = y1 - y0
        length = np.hypot(dx, dy)
        if length == 0:
            continue
        px = -(dy / length) * width / 2.0
        py = (dx / length) * width / 2.0
        patches.append(Polygon([(x0 + px, y0 + py), (x1 + px, y1 + py), (x1 - px, y1 - py), (x0 - px, y0 - py)], closed=True))
        facecolors.append(colors[i])
        alphas.append(alpha[i])
    return PatchCollection(patches, facecolors=facecolors, edgecolors="none", alpha=alphas)


def arrows(coords, flow, color, area_factor, alpha=1):
    data = pd.DataFrame({
        "arrowsize": flow.abs().pipe(np.sqrt).clip(lower=1e-8),
        "direction": np.sign(flow),
        "linelength": np.sqrt((coords.x1 - coords.x2) ** 2.0 + (coords.y1 - coords.y2) ** 2)})
    data = data.join(coords)
    data["arrowsize"] = data["arrowsize"].mul(area_factor)
    data["arrowtolarge"] = 1.5 * data.arrowsize > data.linelength
    data.loc[data.direction == -1.0, ["x1", "x2", "y1", "y2"]] = data.loc[data.direction == -1.0, ["x2", "x1", "y2", "y1"]].values
    if ((data.linelength > 0.0) & (~data.arrowtolarge)).any():
        data["arrows"] = data[(data.linelength > 0.0) & (~data.arrowtolarge)].apply(
            lambda ds: FancyArrow(
                ds.x1, ds.y1,
                0.6 * (ds.x2 - ds.x1) - ds.arrowsize * 0.75 * (ds.x2 - ds.x1) / ds.linelength,
                0.6 * (ds.y2 - ds.y1) - ds.arrowsize * 0.75 * (ds.y2 - ds.y1) / ds.linelength,
                head_width=ds.arrowsize),
            axis=1)
    data.loc[(data.linelength > 0.0) & (data.arrowtolarge), "arrows"] = data[(data.linelength > 0.0) & (data.arrowtolarge)].apply(
        lambda ds: FancyArrow(ds.x1, ds.y1, 0.001 * (ds.x2 - ds.x1), 0.001 * (ds.y2 - ds.y1), head_width=ds.arrowsize), axis=1)
    data = data.dropna(subset=["arrows"])
    if isinstance(alpha, pd.Series):
        alpha = alpha[data.index]
    return PatchCollection(data.arrows, color=color[data.index], alpha=alpha, edgecolors="black", linewidths=0, zorder=4)


def flow_arrows(self, c, flow, widths, colors, alpha):
    begin = c.static.bus0[widths.index]
    end = c.static.bus1[widths.index]
    coords = pd.DataFrame({"x1": begin.map(self.x_trans), "y1": begin.map(self.y_trans), "x2": end.map(self.x_trans), "y2": end.map(self.y_trans)})
    return self._directed_flow(coords, flow, colors, self.area_factor, alpha)


def contribution(area_contributions, x_min, x_max, y_min, y_max, target_area_fraction=0.1):
    now = np.sum(np.abs(area_contributions))
    if now == 0:
        return 1
    return (x_max - x_min) * (y_max - y_min) * target_area_fraction / now


def between_buses(flow, branches):
    if flow.empty:
        return flow
    ends = branches.loc[flow.index, ["bus0", "bus1"]]
    sign = np.where(ends.bus0 < ends.bus1, 1, -1)
    pair = ends.apply(sorted, axis=1).str.join(" - ")
    total = (flow * sign).groupby(pair).transform("sum") * sign
    return total[pair.drop_duplicates().index]


def width_of(flow, width_factor=0.2):
    return abs(flow) ** 0.5 * width_factor


# ---- drawing
def cmapped(colors, cmap, cmap_norm=None):
    if not np.issubdtype(colors.dtype, np.number):
        return colors
    if not isinstance(cmap, mcolors.Colormap):
        cmap = plt.get_cmap(cmap)
    if not cmap_norm:
        cmap_norm = plt.Normalize(vmin=colors.min(), vmax=colors.max())
    return colors.apply(lambda cval: cmap(cmap_norm(cval)))


def arguments(index, **kwargs):
    if any(isinstance(v, pd.Series) for v in kwargs.values()):
        return pd.DataFrame(kwargs)
    return pd.DataFrame(kwargs, index=index)


def plot(n, ax=None, layouter=None, boundaries=None, margin=0.05, projection=None, geomap=True, geomap_resolution="50m",
         geomap_colors=None, title="", jitter=None, **kwargs):
    if margin is None:
        margin = 0.05
    sizes = kwargs.get("bus_sizes")
    if isinstance(sizes, pd.Series):
        buses = sizes.index.unique(level=0) if isinstance(sizes.index, pd.MultiIndex) else sizes.index
    else:
        buses = n.buses.index
    if isinstance(geomap, str):
        geomap_resolution = geomap
        geomap = True
    plotter = MapPlotter(n, layouter, boundaries=boundaries, margin=margin, buses=buses)
    if jitter is not None:
        plotter.add_jitter(jitter)
    return plotter.draw_map(ax, projection=projection, geomap=geomap, geomap_resolution=geomap_resolution, geomap_colors=geomap_colors, title=title, **kwargs)


def branch_series(ser, arg, c_name, n):
    ser = pd.Series(ser, index=n.static(c_name).index)
    if ser.isnull().any():
        raise ValueError("missing")
    return ser


def axis(self, ax=None, projection=None, geomap=True, geomap_resolution="50m", geomap_colors=None, boundaries=None, title=""):
    if boundaries is None:
        boundaries = self.boundaries
    if geomap and not pypsa.plot.maps.static.cartopy_present:
        geomap = False
    if geomap:
        here = cartopy.crs.Projection(self.n.crs)
        if projection is None:
            projection = here
        elif not isinstance(projection, cartopy.crs.Projection):
            raise ValueError("projection")
        if ax is None:
            self.ax = plt.axes(projection=projection)
        elif not isinstance(ax, pypsa.plot.maps.static.GeoAxesSubplot):
            raise ValueError("axis")
        else:
            self.ax = ax
        x, y, _ = self.ax.projection.transform_points(here, self.x.values, self.y.values).T
        self.x_trans = pd.Series(x, self.x.index)
        self.y_trans = pd.Series(y, self.y.index)
        if geomap_colors is not False:
            if geomap_colors is None:
                self.add_geomap_features(geomap_resolution, {})
            elif isinstance(geomap_colors, dict):
                self.add_geomap_features(geomap_resolution, geomap_colors)
            else:
                self.add_geomap_features(geomap_resolution)
        self.ax.set_extent(boundaries, crs=here)
        self.area_factor = get_projected_area_factor(self.ax, self.n.srid)
    else:
        self.ax = plt.gca() if ax is None else ax
        self.ax.axis(boundaries)
        self.x_trans = self.x
        self.y_trans = self.y
    self.ax.set_aspect("equal")
    self.ax.axis("off")
    self.ax.set_title(title)


def draw(
    self, ax=None, projection=None, geomap=True, geomap_resolution="50m", geomap_colors=None, title="", boundaries=None, branch_components=None,
    bus_sizes=2e-2, bus_split_circles=False, bus_colors=None, bus_cmap=None, bus_cmap_norm=None, bus_alpha=1, geometry=False,
    line_flow=None, line_colors="rosybrown", line_cmap="viridis", line_cmap_norm=None, line_alpha=1, line_widths=1.5,
    link_flow=None, link_colors="darkseagreen", link_cmap="viridis", link_cmap_norm=None, link_alpha=1, link_widths=1.5,
    transformer_flow=None, transformer_colors="orange", transformer_cmap="viridis", transformer_cmap_norm=None, transformer_alpha=1, transformer_widths=1.5,
    flow=None, auto_scale_branches=True,
):
    n = self.n
    self.init_axis(ax=ax, projection=projection, geomap=geomap, geomap_resolution=geomap_resolution, geomap_colors=geomap_colors, title=title, boundaries=boundaries)
    if self.ax is None:
        raise ValueError("axis")
    if flow is not None:
        if line_flow is not None or link_flow is not None or transformer_flow is not None:
            raise ValueError("twice")
        if isinstance(flow, pd.Series) and isinstance(flow.index, pd.MultiIndex):
            line_flow = flow.get("Line")
            link_flow = flow.get("Link")
            transformer_flow = flow.get("Transformer")
        else:
            line_flow = flow
            link_flow = flow
            transformer_flow = flow
    if isinstance(line_widths, pd.Series) and isinstance(line_widths.index, pd.MultiIndex):
        raise DeprecationWarning("widths")
    if isinstance(line_colors, pd.Series) and isinstance(line_colors.index, pd.MultiIndex):
        raise DeprecationWarning("colors")
    if geomap and not pypsa.plot.maps.static.cartopy_present:
        geomap = False
    pies = isinstance(bus_sizes, pd.Series) and isinstance(bus_sizes.index, pd.MultiIndex)
    if bus_colors is None:
        bus_colors = n.carriers.color if pies else "cadetblue"
    bus_colors = _convert_to_series(bus_colors, n.buses.index)
    bus_sizes = _convert_to_series(bus_sizes, n.buses.index)
    if pies:
        if len(bus_sizes.index.unique(level=0).difference(n.buses.index)) != 0:
            raise ValueError("buses")
        if not bus_sizes.index.unique(level=1).isin(bus_colors.index).all():
            raise ValueError("colors")
    else:
        bus_colors = bus_colors.reindex(n.buses.index)
    bus_colors = _apply_cmap(bus_colors, bus_cmap, bus_cmap_norm)
    bus_sizes = bus_sizes.sort_index(level=0, sort_remaining=False)
    if geomap:
        bus_sizes = bus_sizes * self.area_factor**2
    if isinstance(bus_sizes.index, pd.MultiIndex):
        patches = self.get_multiindex_buses(bus_sizes, bus_colors, bus_alpha, bus_split_circles)
    else:
        patches = self.get_singleindex_buses(bus_sizes, bus_colors, bus_alpha)
    bus_collection = PatchCollection(patches, match_original=True, zorder=5)
    self.ax.add_collection(bus_collection)
    if branch_components is None:
        branch_components = n.branch_components
    branches = {}
    flows = {}
    for c in n.iterate_components(branch_components):
        if c.name == "Line":
            widths = line_widths
            colors = line_colors
            alpha = line_alpha
            flow = self._flow_ds_from_arg(line_flow, c.name)
            cmap = line_cmap
            cmap_norm = line_cmap_norm
        elif c.name == "Link":
            widths = link_widths
            colors = link_colors
            alpha = link_alpha
            flow = self._flow_ds_from_arg(link_flow, c.name)
            cmap = link_cmap
            cmap_norm = link_cmap_norm
        elif c.name == "Transformer":
            widths = transformer_widths
            colors = transformer_colors
            alpha = transformer_alpha
            flow = self._flow_ds_from_arg(transformer_flow, c.name)
            cmap = transformer_cmap
            cmap_norm = transformer_cmap_norm
        data = self._dataframe_from_arguments(c.static.index, widths=widths, colors=colors, alpha=alpha, flow=flow)
        if data.empty:
            continue
        data["colors"] = _apply_cmap(data.colors, cmap, cmap_norm)
        drawn = self.get_branch_collection(c, data.widths, data.colors, data.alpha, geometry, auto_scale_branches)
        if drawn is not None:
            self.ax.add_collection(drawn)
            branches[c.name] = drawn
        if flow is not None:
            if auto_scale_branches:
                scale = sum([len(n.static(c)) for c in branch_components]) + 100
                data["flow"] = data.flow.mul(abs(data.widths), fill_value=0) / scale
            drawn = self.get_flow_collection(c, flow=data.flow, widths=data.widths, colors=data.colors, alpha=data.alpha)
            if drawn is not None:
                self.ax.add_collection(drawn)
                flows[c.name] = drawn
    return {"nodes": {"Bus": bus_collection}, "branches": branches, "flows": flows}


# ---- interactive maps
def interactive(
    n, fig=None, bus_colors="cadetblue", bus_alpha=1, bus_sizes=10, bus_cmap=None, bus_colorbar=None, bus_text=None,
    line_colors="rosybrown", link_colors="darkseagreen", transformer_colors="orange", line_widths=3, link_widths=3, transformer_widths=3,
    line_text=None, link_text=None, transformer_text=None, layouter=None, title="", size=None, branch_components=None, iplot=True, jitter=None,
    mapbox=False, mapbox_style="open-street-map", mapbox_token="", mapbox_parameters={},
):
    if fig is None:
        fig = {"data": [], "layout": {}}
    if bus_text is None:
        bus_text = "Bus " + n.buses.index
    at = n.buses[["x", "y"]]
    if layouter or (at.isnull() | (at == 0)).all().all():
        x, y = apply_layouter(n, layouter=layouter, inplace=False)
    else:
        x = n.buses["x"]
        y = n.buses["y"]
    rng = np.random.default_rng()
    if jitter is not None:
        x = x + rng.uniform(low=-jitter, high=jitter, size=len(x))
        y = y + rng.uniform(low=-jitter, high=jitter, size=len(y))
    buses = {"x": x, "y": y, "text": bus_text, "type": "scatter", "mode": "markers", "hoverinfo": "text", "opacity": bus_alpha,
             "marker": {"color": bus_colors, "size": bus_sizes}}
    if bus_cmap is not None:
        buses["marker"]["colorscale"] = bus_cmap
    if bus_colorbar is not None:
        buses["marker"]["colorbar"] = bus_colorbar
    if isinstance(line_widths, pd.Series):
        if isinstance(line_widths.index, pd.MultiIndex):
            raise DeprecationWarning("widths")
    if isinstance(line_colors, pd.Series):
        if isinstance(line_colors.index, pd.MultiIndex):
            raise DeprecationWarning("colors")
    if branch_components is None:
        branch_components = n.branch_components
    branch_colors = {"Line": line_colors, "Link": link_colors, "Transformer": transformer_colors}
    branch_widths = {"Line": line_widths, "Link": link_widths, "Transformer": transformer_widths}
    branch_text = {"Line": line_text, "Link": link_text, "Transformer": transformer_text}
    shapes = []
    texts = []
    for c in n.iterate_components(branch_components):
        widths = as_branch_series(branch_widths[c.name], "width", c.name, n)
        colors = as_branch_series(branch_colors[c.name], "color", c.name, n)
        text = branch_text[c.name]
        if text is None:
            text = c.name + " " + c.static.index
        x0 = c.static.bus0.map(x)
        x1 = c.static.bus1.map(x)
        y0 = c.static.bus0.map(y)
        y1 = c.static.bus1.map(y)
        for b in c.static.index:
            shapes.append({"type": "line", "opacity": 0.8, "x0": x0[b], "y0": y0[b], "x1": x1[b], "y1": y1[b], "line": {"color": colors[b], "width": widths[b]}})
        texts.append({"x": 0.5 * (x0 + x1), "y": 0.5 * (y0 + y1), "text": text, "type": "scatter", "mode": "markers", "hoverinfo": "text", "marker": {"opacity": 0.0}})
    if mapbox:
        texts_mapbox = []
        for t in texts:
            t["lon"] = t.pop("x")
            t["lat"] = t.pop("y")
            texts_mapbox.append(go.Scattermapbox(t))
        texts = texts_mapbox
        shapes_mapbox = []
        for s in shapes:
            s["lon"] = [s.pop("x0"), s.pop("x1")]
            s["lat"] = [s.pop("y0"), s.pop("y1")]
            shapes_mapbox.append(go.Scattermapbox(s, mode="lines"))
        shapes = shapes_mapbox
        buses["lon"] = buses.pop("x")
        buses["lat"] = buses.pop("y")
        buses = go.Scattermapbox(buses)
        fig["data"].extend(shapes + texts + [buses])
    else:
        fig["data"].extend([buses] + texts)
    fig["layout"].update({"title": title, "hovermode": "closest", "showlegend": False})
    if size is not None:
        if len(size) != 2:
            raise ValueError("size")
        fig["layout"].update({"width": size[0], "height": size[1]})
    if mapbox:
        parameters = dict(mapbox_parameters)
        if mapbox_token != "":
            parameters["accesstoken"] = mapbox_token
        parameters.setdefault("style", mapbox_style)
        if parameters["style"] in ["basic", "streets", "outdoors", "light", "dark", "satellite", "satellite-streets"]:
            if "accesstoken" not in parameters.keys():
                raise ValueError("token")
        if "center" not in parameters.keys():
            parameters["center"] = {"lat": (n.buses.y.min() + n.buses.y.max()) / 2, "lon": (n.buses.x.min() + n.buses.x.max()) / 2}
        if "zoom" not in parameters.keys():
            parameters["zoom"] = 2
        fig["layout"]["mapbox"] = parameters
    else:
        fig["layout"]["shapes"] = shapes
    if iplot:
        if pypsa.plot.maps.interactive.pltly_present:
            pltly.iplot(fig)
    return fig


def explored(n, crs=None, tooltip=True, popup=True, tiles="OpenStreetMap", components=None):
    try:
        import mapclassify
        from folium import Element, LayerControl, Map, TileLayer
    except ImportError:
        return None
    if crs is None:
        crs = n.crs or 4326
    if components is None:
        components = {"Bus", "Line", "Transformer", "Link"}
    map = Map(tiles=None)
    title = "PyPSA Network" + (f": {n.name}" if n.name else "")
    map.get_root().html.add_child(Element(f"<h4 style='position:absolute;z-index:100000;left:1vw;bottom:5px'>{title}</h4>"))
    TileLayer(tiles, name=tiles).add_to(map)
    for name, table, shown, color in (("Transformer", n.transformers, "Transformers", "orange"), ("Line", n.lines, "Lines", "rosybrown"), ("Link", n.links, "Links", "darkseagreen")):
        if not table.empty and name in components:
            x1 = table.bus0.map(n.buses.x)
            y1 = table.bus0.map(n.buses.y)
            x2 = table.bus1.map(n.buses.x)
            y2 = table.bus1.map(n.buses.y)
            known = ~(x1.isna() | y1.isna() | x2.isna() | y2.isna())
            frame = gpd.GeoDataFrame(
                table[known], geometry=linestrings(np.stack([(x1[known], y1[known]), (x2[known], y2[known])], axis=1).T), crs=crs)
            frame[frame.is_valid].explore(m=map, color=mcolors.CSS4_COLORS[color], tooltip=tooltip, popup=popup, name=shown)
    if not n.buses.empty and "Bus" in components:
        frame = gpd.GeoDataFrame(n.buses, geometry=gpd.points_from_xy(n.buses.x, n.buses.y), crs=crs)
        frame[frame.is_valid].explore(m=map, color=mcolors.CSS4_COLORS["cadetblue"], tooltip=tooltip, popup=popup, name="Buses", marker_kwds={"radius": 4})
    if not n.generators.empty and "Generator" in components:
        frame = gpd.GeoDataFrame(n.generators, geometry=gpd.points_from_xy(n.generators.bus.map(n.buses.x), n.generators.bus.map(n.buses.y)), crs=crs)
        frame[frame.is_valid].explore(m=map, color=mcolors.CSS4_COLORS["purple"], tooltip=tooltip, popup=popup, name="Generators", marker_kwds={"radius": 2.5})
    if not n.loads.empty and "Load" in components:
        loads = n.loads.copy()
        loads["p_set_sum"] = n.loads_t.p_set.sum(axis=0).round(1)
        frame = gpd.GeoDataFrame(loads, geometry=gpd.points_from_xy(loads.bus.map(n.buses.x), loads.bus.map(n.buses.y)), crs=crs)
        frame[frame.is_valid].explore(m=map, color=mcolors.CSS4_COLORS["red"], tooltip=tooltip, popup=popup, name="Loads", marker_kwds={"radius": 1.5})
    if not n.storage_units.empty and "StorageUnit" in components:
        frame = gpd.GeoDataFrame(n.storage_units, geometry=gpd.points_from_xy(n.storage_units.bus.map(n.buses.x), n.storage_units.bus.map(n.buses.y)), crs=crs)
        frame[frame.is_valid].explore(m=map, color=mcolors.CSS4_COLORS["black"], tooltip=tooltip, popup=popup, name="Storage Units", marker_kwds={"radius": 1})
    map.fit_bounds(map.get_bounds())
    LayerControl().add_to(map)
    return map


# ---- legends
def legend_lines(ax, sizes, labels, colors=None, patch_kw=None, legend_kw=None):
    sizes = np.atleast_1d(sizes)
    labels = np.atleast_1d(labels)
    colors = [] if colors is None else np.atleast_1d(colors)
    if patch_kw is None:
        patch_kw = {}
    if legend_kw is None:
        legend_kw = {}
    if len(sizes) != len(labels):
        raise ValueError("length")
    if len(colors) > 0 and len(sizes) != len(colors):
        raise ValueError("length")
    if len(colors) == 0:
        handles = [plt.Line2D([0], [0], linewidth=s, **patch_kw) for s in sizes]
    else:
        handles = [plt.Line2D([0], [0], linewidth=s, color=c, **patch_kw) for s, c in zip(sizes, colors)]
    legend = ax.legend(handles, labels, **legend_kw)
    if ax.get_figure() is not None:
        ax.get_figure().add_artist(legend)
    return legend


def legend_patches(ax, colors, labels, patch_kw=None, legend_kw=None):
    colors = np.atleast_1d(colors)
    labels = np.atleast_1d(labels)
    if patch_kw is None:
        patch_kw = {}
    if legend_kw is None:
        legend_kw = {}
    if len(colors) != len(labels):
        raise ValueError("length")
    legend = ax.legend([Patch(facecolor=c, **patch_kw) for c in colors], labels, **legend_kw)
    if ax.get_figure() is not None:
        ax.get_figure().add_artist(legend)
    return legend


def legend_circles(ax, sizes, labels, srid=4326, patch_kw=None, legend_kw=None):
    sizes = np.atleast_1d(sizes)
    labels = np.atleast_1d(labels)
    if patch_kw is None:
        patch_kw = {}
    if legend_kw is None:
        legend_kw = {}
    if len(sizes) != len(labels):
        raise ValueError("length")
    if hasattr(ax, "projection"):
        factor = get_projected_area_factor(ax, srid) ** 2
        sizes = [s * factor for s in sizes]
    handles = [Circle((0, 0), radius=s**0.5, **patch_kw) for s in sizes]
    legend = ax.legend(handles, labels, handler_map={Circle: pypsa.plot.maps.static.HandlerCircle()}, **legend_kw)
    if ax.get_figure() is not None:
        ax.get_figure().add_artist(legend)
    return legend


def legend_semicircles(ax, sizes, labels, srid=4326, patch_kw={}, legend_kw={}):
    sizes = np.atleast_1d(sizes)
    labels = np.atleast_1d(labels)
    assert len(sizes) == len(labels)
    if hasattr(ax, "projection"):
        factor = get_projected_area_factor(ax, srid) ** 2
        sizes = [s * factor for s in sizes]
    radius = [np.sign(s) * np.abs(s * 2) ** 0.5 for s in sizes]
    handles = [Wedge((0, -r / 2), r=r, theta1=0, theta2=180, **patch_kw) for r in radius]
    legend = ax.legend(handles, labels, handler_map={Wedge: pypsa.plot.maps.static.WedgeHandler()}, **legend_kw)
    if ax.get_figure() is not None:
        ax.get_figure().add_artist(legend)
    return legend


def legend_arrows(ax, sizes, labels, srid=4326, colors=None, arrow_to_tail_width=0.15, patch_kw=None, legend_kw=None):
    sizes = np.atleast_1d(sizes) ** 0.5
    labels = np.atleast_1d(labels)
    colors = np.atleast_1d(colors)
    if patch_kw is None:
        patch_kw = {"linewidth": 1, "zorder": 4}
    if legend_kw is None:
        legend_kw = {}
    if len(sizes) != len(labels):
        raise ValueError("length")
    if hasattr(ax, "projection"):
        factor = get_projected_area_factor(ax, srid)
        sizes = [s * factor for s in sizes]
    if len(colors) == 1:
        colors = np.repeat(colors, len(sizes))
    elif len(colors) != len(sizes):
        raise ValueError("colors")
    handles = [FancyArrow(0, 0, 1, 0, head_width=s, head_length=s / 0.6, length_includes_head=False, color=c, **patch_kw) for s, c in zip(sizes, colors)]
    legend = ax.legend(handles, labels, handler_map={FancyArrow: pypsa.plot.maps.static.HandlerArrow(width_ratio=arrow_to_tail_width)}, **legend_kw)
    if ax.get_figure() is not None:
        ax.get_figure().add_artist(legend)
    return legend


def significant(x, n=2):
    if x == 0:
        return 0
    rounded = round(x, (n - 1) - int(np.floor(np.log10(abs(x)))))
    return int(rounded) if rounded >= 1 else rounded


def representatives(series, quantiles=[0.6, 0.2], n_significant=1, base_unit="MWh", group_on_first_level=False):
    if series.empty:
        return []
    if group_on_first_level:
        series = series.abs().groupby(level=0).sum()
    largest = series.abs().max()
    drawn = [pypsa.plot.maps.static.round_to_significant_digits(largest * q, n_significant) for q in quantiles]
    return [(v, pypsa.plot.maps.static.scaled_legend_label(v, base_unit)) for v in drawn]


def label(value, base_unit="MWh"):
    units = {"": 1, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12, "P": 1e15}
    of_base = ""
    name = base_unit
    for prefix in sorted(units.keys(), key=len, reverse=True):
        if base_unit.startswith(prefix):
            of_base = prefix
            name = base_unit[len(prefix):]
            break
    total = value * units[of_base]
    magnitude = np.floor(np.log10(abs(total))) if total != 0 else 0
    scales = np.array(list(units.values()))
    prefixes = list(units.keys())
    which = np.searchsorted(scales, 10 ** (magnitude - 2))
    if which >= len(scales):
        which = len(scales) - 1
    if of_base:
        scaled = value / (scales[which] / units[of_base])
    else:
        scaled = total / scales[which]
    if abs(scaled) >= 1:
        scaled = int(round(scaled))
    return f"{scaled} {prefixes[which]}{name}"

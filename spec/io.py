"""Reference snippets of reading and writing networks."""
import json
import math
import os
from functools import partial

import numpy as np
import pandas as pd
import validators
import xarray as xr
from cloudpathlib import AnyPath as Path
from pypsa import io
from pypsa.common import check_optional_dependency
from pypsa.descriptors import update_linkports_component_attrs
from pyproj import CRS


def labels_of(labels):
    """numbers and the default snapshot stay what they are, dates become dates"""
    if pd.api.types.is_numeric_dtype(labels) or labels.eq("now").any():
        return labels
    try:
        return pd.to_datetime(labels)
    except (ValueError, TypeError):
        return labels


# ------------------------------------------------------------ csv
def csv_table(self, name, **options):
    fn = self.csv_folder_name.joinpath(name)
    return pd.read_csv(fn, index_col=0, encoding=self.encoding, quotechar=self.quotechar, **options) if fn.is_file() else None


def csv_get_attributes(self):
    fn = self.csv_folder_name.joinpath("network.csv")
    if not fn.is_file():
        return None
    return dict(pd.read_csv(fn, encoding=self.encoding, dtype={"pypsa_version": str}, quotechar=self.quotechar).iloc[0])


def csv_json(self, name):
    fn = self.csv_folder_name.joinpath(name)
    return json.loads(fn.open().read()) if fn.is_file() else {}


def csv_get_meta(self):
    return csv_json(self, "meta.json")


def csv_get_crs(self):
    return csv_json(self, "crs.json")


def csv_get_snapshots(self):
    df = csv_table(self, "snapshots.csv", parse_dates=True)
    if df is None:
        return None
    for level in ("snapshot", "timestep"):
        if level in df:
            df[level] = io._parse_snapshots(df[level])
    return df


def csv_get_investment_periods(self):
    return csv_table(self, "investment_periods.csv")


def csv_get_static(self, list_name):
    return csv_table(self, list_name + ".csv")


def csv_get_series(self, list_name):
    for fn in self.csv_folder_name.iterdir():
        if fn.name.startswith(list_name + "-") and fn.name.endswith(".csv"):
            yield fn.name[len(list_name) + 1 : -4], pd.read_csv(
                self.csv_folder_name.joinpath(fn.name), index_col=0, encoding=self.encoding, quotechar=self.quotechar, parse_dates=True)


def csv_write(self, name, df):
    df.to_csv(self.csv_folder_name.joinpath(name), encoding=self.encoding, quotechar=self.quotechar)


def csv_save_attributes(self, attrs):
    name = attrs.pop("name")
    csv_write(self, "network.csv", pd.DataFrame(attrs, index=pd.Index([name], name="name")))


def csv_save_meta(self, meta):
    self.csv_folder_name.joinpath("meta.json").open("w").write(json.dumps(meta))


def csv_save_crs(self, crs):
    self.csv_folder_name.joinpath("crs.json").open("w").write(json.dumps(crs))


def csv_save_snapshots(self, snapshots):
    csv_write(self, "snapshots.csv", snapshots)


def csv_save_investment_periods(self, investment_periods):
    csv_write(self, "investment_periods.csv", investment_periods)


def csv_save_static(self, list_name, df):
    csv_write(self, list_name + ".csv", df)


def csv_save_series(self, list_name, attr, df):
    csv_write(self, list_name + "-" + attr + ".csv", df)


def csv_remove_static(self, list_name):
    fns = list(self.csv_folder_name.glob(list_name + ".csv"))
    fns += self.csv_folder_name.glob(list_name + "-*.csv")
    if fns:
        for fn in fns:
            fn.unlink()


def csv_remove_series(self, list_name, attr):
    fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
    if fn.exists():
        fn.unlink()


def csv_remove_all_series(self, list_name):
    for fn in list(self.csv_folder_name.glob(list_name + "-*.csv")):
        fn.unlink()


# ------------------------------------------------------------ excel
def sheet(self, name):
    df = self.sheets[name]
    return df.set_index(df.columns[0])


def xls_get_attributes(self):
    try:
        return dict(self.sheets["network"].iloc[0])
    except (ValueError, KeyError):
        return None


def xls_get_meta(self):
    try:
        df = self.sheets["meta"]
        if df.empty:
            return {}
        meta = {}
        for _, row in df.iterrows():
            value = row["Value"]
            if isinstance(value, str):
                try:
                    value = json.loads(value)
                except json.JSONDecodeError:
                    pass
            meta[row["Key"]] = value
        return meta
    except (ValueError, KeyError):
        return {}


def xls_get_crs(self):
    try:
        df = self.sheets["crs"]
        return dict(zip(df.iloc[:, 0], df.iloc[:, 1])) if not df.empty else {}
    except (ValueError, KeyError):
        return {}


def xls_get_snapshots(self):
    try:
        df = sheet(self, "snapshots")
        for level in ("snapshot", "timestep"):
            if level in df:
                df[level] = io._parse_snapshots(df[level])
        return df
    except (ValueError, KeyError):
        return None


def xls_get_investment_periods(self):
    try:
        return sheet(self, "investment_periods")
    except (ValueError, KeyError):
        return None


def xls_get_static(self, list_name):
    try:
        return sheet(self, list_name)
    except (ValueError, KeyError):
        return None


def xls_get_series(self, list_name):
    for name, df in self.sheets.items():
        if name.startswith(list_name + "-"):
            yield name[len(list_name) + 1 :], df.set_index(df.columns[0])


def xls_save_attributes(self, attrs):
    name = attrs.pop("name")
    pd.DataFrame(attrs, index=pd.Index([name], name="name")).to_excel(self.writer, sheet_name="network")


def xls_save_meta(self, meta):
    pd.DataFrame([[key, json.dumps(value)] for key, value in meta.items()], columns=["Key", "Value"]).to_excel(
        self.writer, sheet_name="meta", index=False)


def xls_save_crs(self, crs):
    pd.DataFrame(list(crs.items()), columns=["Key", "Value"]).to_excel(self.writer, sheet_name="crs", index=False)


def xls_save_snapshots(self, snapshots):
    snapshots.to_excel(self.writer, sheet_name="snapshots")


def xls_save_investment_periods(self, investment_periods):
    investment_periods.to_excel(self.writer, sheet_name="investment_periods")


def xls_save_static(self, list_name, df):
    df.reset_index().to_excel(self.writer, sheet_name=list_name, index=False)


def xls_save_series(self, list_name, attr, df):
    df.to_excel(self.writer, sheet_name=f"{list_name}-{attr}")


def xls_remove_static(self, list_name):
    if list_name in self.writer.book.sheetnames:
        del self.writer.book[list_name]
    xls_remove_all_series(self, list_name)


def xls_remove_series(self, list_name, attr):
    name = f"{list_name}-{attr}"
    if name in self.writer.book.sheetnames:
        del self.writer.book[name]


def xls_remove_all_series(self, list_name):
    for name in list(self.writer.book.sheetnames):
        if name.startswith(f"{list_name}-"):
            del self.writer.book[name]


def xls_writer(self):
    if self._writer is None:
        self._writer = pd.ExcelWriter(self.excel_file_path, engine=self.engine, mode="a" if self.excel_file_path.exists() else "w",
                                      if_sheet_exists="replace")
    return self._writer


def xls_finish(self):
    if "_temp" in self.writer.book.sheetnames:
        del self.writer.book["_temp"]
    if self.writer is not None:
        self.writer.close()


# ------------------------------------------------------------ hdf5
def h5_get_attributes(self):
    return dict(self.ds["/network"].reset_index().iloc[0])


def h5_get_meta(self):
    return json.loads(self.ds["/meta"][0] if "/meta" in self.ds else "{}")


def h5_get_crs(self):
    return json.loads(self.ds["/crs"][0] if "/crs" in self.ds else "{}")


def h5_get_snapshots(self):
    return self.ds["/snapshots"] if "/snapshots" in self.ds else None


def h5_get_investment_periods(self):
    return self.ds["/investment_periods"] if "/investment_periods" in self.ds else None


def h5_get_static(self, list_name):
    if "/" + list_name not in self.ds:
        return None
    df = self.ds["/" + list_name]
    if not (self.pypsa_version is None or self.pypsa_version < [0, 13, 1]):
        df = df.set_index("name")
    self.index[list_name] = df.index
    return df


def h5_get_series(self, list_name):
    prefix = "/" + list_name + "_t/"
    for tab in self.ds:
        if tab.startswith(prefix):
            df = self.ds[tab]
            df.columns = self.index[list_name][df.columns]
            yield tab[len(prefix):], df


def h5_save_attributes(self, attrs):
    name = attrs.pop("name")
    self.ds.put("/network", pd.DataFrame(attrs, index=pd.Index([name], name="name")), format="table", index=False)


def h5_save_meta(self, meta):
    self.ds.put("/meta", pd.Series(json.dumps(meta)))


def h5_save_crs(self, crs):
    self.ds.put("/crs", pd.Series(json.dumps(crs)))


def h5_save_snapshots(self, snapshots):
    self.ds.put("/snapshots", snapshots, format="table", index=False)


def h5_save_investment_periods(self, investment_periods):
    self.ds.put("/investment_periods", investment_periods, format="table", index=False)


def h5_save_static(self, list_name, df):
    df = df.rename_axis(index="name")
    self.index[list_name] = df.index
    self.ds.put("/" + list_name, df.reset_index(), format="table", index=False)


def h5_save_series(self, list_name, attr, df):
    df = df.set_axis(self.index[list_name].get_indexer(df.columns), axis="columns")
    self.ds.put("/" + list_name + "_t/" + attr, df, format="table", index=False)


def h5_finish(self):
    self._hdf5_handle.close()


# ------------------------------------------------------------ netcdf
def nc_get_attributes(self):
    return {attr[len("network_"):]: val for attr, val in self.ds.attrs.items() if attr.startswith("network_")}


def nc_get_meta(self):
    return json.loads(self.ds.attrs.get("meta", "{}"))


def nc_get_crs(self):
    return json.loads(self.ds.attrs.get("crs", "{}"))


def nc_get_static(self, list_name, index_name=None):
    prefix = list_name + "_"
    if index_name is None:
        index_name = prefix + "i"
    if index_name not in self.ds.coords:
        return None
    df = pd.DataFrame(index=self.ds.coords[index_name].to_index().rename("name"))
    for attr in self.ds.data_vars.keys():
        if attr.startswith(prefix) and attr[len(prefix):len(prefix) + 2] != "t_":
            df[attr[len(prefix):]] = self.ds[attr].to_pandas()
    return df


def nc_get_snapshots(self):
    return self.get_static("snapshots", "snapshots")


def nc_get_investment_periods(self):
    return self.get_static("investment_periods", "investment_periods")


def nc_get_series(self, list_name):
    prefix = list_name + "_t_"
    for attr in self.ds.data_vars.keys():
        if attr.startswith(prefix):
            df = self.ds[attr].to_pandas()
            df.index.name = "name"
            df.columns.name = "name"
            yield attr[len(prefix):], df


def nc_save_attributes(self, attrs):
    self.ds.attrs.update(("network_" + attr, val) for attr, val in attrs.items())


def nc_save_meta(self, meta):
    self.ds.attrs["meta"] = json.dumps(meta)


def nc_save_crs(self, crs):
    self.ds.attrs["crs"] = json.dumps(crs)


def nc_save_columns(self, df, name):
    df = df.rename_axis(index=name)
    for attr in df.columns:
        self.ds[name + "_" + attr] = df[attr]


def nc_save_snapshots(self, snapshots):
    nc_save_columns(self, snapshots, "snapshots")


def nc_save_investment_periods(self, investment_periods):
    nc_save_columns(self, investment_periods, "investment_periods")


def nc_save_static(self, list_name, df):
    df = df.rename_axis(index=list_name + "_i")
    self.ds[list_name + "_i"] = df.index
    for attr in df.columns:
        self.ds[list_name + "_" + attr] = df[attr]


def nc_save_series(self, list_name, attr, df):
    self.ds[list_name + "_t_" + attr] = df.rename_axis(index="snapshots", columns=list_name + "_t_" + attr + "_i")


def nc_compress(self):
    for v in self.ds.data_vars:
        if self.ds[v].dtype.kind not in ["U", "O"]:
            self.ds[v].encoding.update(self.compression)


def nc_single_precision(self):
    for v in self.ds.data_vars:
        if self.ds[v].dtype == np.float64:
            self.ds[v] = self.ds[v].astype(np.float32)


def nc_finish(self):
    if self.float32:
        nc_single_precision(self)
    if self.compression:
        nc_compress(self)
    if self.path is not None:
        self.ds.to_netcdf(Path(self.path))


# ------------------------------------------------------------ all formats
KINDS_OF_VALUES = (float, int, bool, str) + tuple(np.sctypeDict.values())
DERIVED = ("sub_network", "r_pu", "x_pu", "g_pu", "b_pu")


def export(n, exporter, basename=None, quotechar='"', export_standard_types=False):
    values = {}
    for attr in dir(n):
        if not attr.startswith("__"):
            value = getattr(n, attr)
            if isinstance(value, KINDS_OF_VALUES):
                prop = getattr(n.__class__, attr, None)
                if isinstance(prop, property) and prop.fset is None:
                    continue
                values[attr] = value
    exporter.save_attributes(values)
    exporter.save_crs({"_crs": n.crs.to_wkt()} if n.crs is not None else {})
    exporter.save_meta(n.meta)
    if isinstance(n.snapshot_weightings.index, pd.MultiIndex):
        exporter.save_snapshots(n.snapshot_weightings.rename_axis(["period", "timestep"]).reset_index())
    else:
        exporter.save_snapshots(n.snapshot_weightings.rename_axis("snapshot").reset_index())
    exporter.save_investment_periods(n.investment_period_weightings)

    for component in n.all_components - {"SubNetwork"}:
        list_name = n.components[component]["list_name"]
        attrs = n.components[component]["attrs"]
        static = n.static(component)
        if component == "Shape":
            static = pd.DataFrame(static).assign(geometry=static["geometry"].to_wkt())
        if component in n.standard_type_components and not export_standard_types:
            static = static.drop(n.components[component]["standard_types"].index)
        static = static.rename_axis(index="name")
        if static.empty:
            exporter.remove_static(list_name)
            continue
        columns = []
        for col in static.columns:
            known = col in attrs.index
            if col in DERIVED:
                continue
            if known and pd.isnull(attrs.at[col, "default"]) and pd.isnull(static[col]).all():
                continue
            if known and static[col].dtype == attrs.at[col, "dtype"] and (static[col] == attrs.at[col, "default"]).all():
                continue
            columns.append(col)
        exporter.save_static(list_name, static[columns])
        exporter.remove_all_series(list_name)
        dynamic = n.dynamic(component)
        for attr in dynamic:
            columns = dynamic[attr].columns
            if attr in attrs.index:
                default = attrs.at[attr, "default"]
                if pd.isnull(default):
                    needed = (~pd.isnull(dynamic[attr])).any()
                else:
                    needed = (dynamic[attr] != default).any()
                if attr in static:
                    value = static[attr].reindex(columns)
                    needed = needed | (value.notna() & (value != default))
                columns = columns[needed]
            if len(columns) > 0:
                exporter.save_series(list_name, attr, dynamic[attr].reset_index()[columns])
            else:
                exporter.remove_series(list_name, attr)


def import_(n, importer, basename, skip_time=False):
    attrs = importer.get_attributes()
    n.meta = importer.get_meta()
    crs = importer.get_crs().pop("_crs", None)
    if crs is not None:
        n._crs = CRS.from_wkt(crs)
    current = [int(s) for s in n.pypsa_version.split(".")]
    version = None
    if attrs is not None:
        name = attrs.pop("name")
        n.name = "" if pd.isnull(name) else str(name)
        try:
            version = [int(s) for s in attrs.pop("pypsa_version").split(".")]
        except KeyError:
            version = None
        for attr, val in attrs.items():
            setattr(n, attr, val)
    if version is None or version < [0, 18, 0]:
        n._multi_invest = 0
    importer.pypsa_version = version
    importer.current_pypsa_version = current

    df = importer.get_snapshots()
    if df is not None:
        levels = {"period", "timestep", "snapshot"}.intersection(df.columns)
        if levels:
            df.set_index(sorted(levels), inplace=True)
        n.set_snapshots(df.index)
        cols = ["objective", "stores", "generators"]
        if not df.columns.intersection(cols).empty:
            n.snapshot_weightings = df.reindex(index=n.snapshots, columns=cols)
        elif "weightings" in df.columns:
            n.snapshot_weightings = df["weightings"].reindex(n.snapshots)
        n.set_snapshots(df.index)

    periods = importer.get_investment_periods()
    if periods is not None:
        n.periods = periods.index
        n._investment_period_weightings = periods.reindex(n.investment_periods)

    for component in ["Bus", "Carrier"] + sorted(n.all_components - {"Bus", "Carrier", "SubNetwork"}):
        list_name = n.components[component]["list_name"]
        df = importer.get_static(list_name)
        if df is None:
            if component == "Bus":
                return
            continue
        if component == "Link":
            update_linkports_component_attrs(n, where=df)
        n.add(component, df.index, **df)
        if not skip_time:
            for attr, df in importer.get_series(list_name):
                df.set_index(n.snapshots, inplace=True)
                io._import_series_from_df(n, df, component, attr)


def from_csv(n, csv_folder_name, encoding=None, quotechar='"', skip_time=False):
    with io.ImporterCSV(csv_folder_name, encoding=encoding, quotechar=quotechar) as importer:
        io._import_from_importer(n, importer, basename=Path(csv_folder_name).name, skip_time=skip_time)


def to_csv(n, csv_folder_name, encoding=None, quotechar='"', export_standard_types=False):
    with io.ExporterCSV(csv_folder_name=csv_folder_name, encoding=encoding, quotechar=quotechar) as exporter:
        io._export_to_exporter(n, exporter, basename=os.path.basename(csv_folder_name), export_standard_types=export_standard_types)


def from_excel(n, excel_file_path, skip_time=False, engine="calamine"):
    with io.ImporterExcel(excel_file_path, engine=engine) as importer:
        io._import_from_importer(n, importer, basename=Path(excel_file_path).stem, skip_time=skip_time)


def to_excel(n, excel_file_path, export_standard_types=False, engine="openpyxl"):
    with io.ExporterExcel(excel_file_path, engine=engine) as exporter:
        io._export_to_exporter(n, exporter, basename=Path(excel_file_path).stem, export_standard_types=export_standard_types)


def from_hdf5(n, path, skip_time=False):
    with io.ImporterHDF5(path) as importer:
        io._import_from_importer(n, importer, basename=Path(path).name, skip_time=skip_time)


def to_hdf5(n, path, export_standard_types=False, **kwargs):
    kwargs.setdefault("complevel", 4)
    with io.ExporterHDF5(path, **kwargs) as exporter:
        io._export_to_exporter(n, exporter, basename=os.path.basename(path), export_standard_types=export_standard_types)


def from_netcdf(n, path, skip_time=False):
    with io.ImporterNetCDF(path=path) as importer:
        io._import_from_importer(n, importer, basename="" if isinstance(path, xr.Dataset) else Path(path).name, skip_time=skip_time)


def to_netcdf(n, path=None, export_standard_types=False, compression=None, float32=False):
    with io.ExporterNetCDF(path, compression, float32) as exporter:
        io._export_to_exporter(n, exporter, basename=os.path.basename(path) if path is not None else None, export_standard_types=export_standard_types)
        return exporter.ds


def enter(self):
    if self.ds is not None:
        self.ds = self.ds.__enter__()
    return self


def leave(self, exc_type, exc_val, exc_tb):
    if exc_type is None:
        self.finish()
    if self.ds is not None:
        self.ds.__exit__(exc_type, exc_val, exc_tb)


# ------------------------------------------------------------ opening
def open_csv_in(self, csv_folder_name, encoding, quotechar):
    self.csv_folder_name = Path(csv_folder_name)
    self.encoding = encoding
    self.quotechar = quotechar
    if not self.csv_folder_name.is_dir():
        raise FileNotFoundError("missing")


def open_csv_out(self, csv_folder_name, encoding, quotechar):
    self.csv_folder_name = Path(csv_folder_name)
    self.encoding = encoding
    self.quotechar = quotechar
    if not self.csv_folder_name.is_dir():
        self.csv_folder_name.mkdir()


def open_xls_in(self, path, engine="calamine"):
    if engine == "calamine":
        check_optional_dependency("python_calamine", "text")
    if not isinstance(path, (str | Path)):
        raise TypeError("path")
    path = Path(path)
    if not path.is_file():
        raise FileNotFoundError("missing")
    self.engine = engine
    reader = partial(pd.read_excel, sheet_name=None, engine=engine)
    self.sheets = io._retrieve_from_url(str(path), reader) if validators.url(str(path)) else reader(path)
    self.index = {}


def open_xls_out(self, excel_file_path, engine="openpyxl"):
    if engine == "openpyxl":
        check_optional_dependency("openpyxl", "text")
    self.engine = engine
    self.excel_file_path = Path(excel_file_path)
    if not self.excel_file_path.exists():
        with pd.ExcelWriter(self.excel_file_path, engine=engine) as writer:
            pd.DataFrame().to_excel(writer, sheet_name="_temp")
    self._writer = None


def open_h5_in(self, path):
    check_optional_dependency("tables", "text")
    self.path = path
    if isinstance(path, (str | Path)):
        reader = partial(pd.HDFStore, mode="r")
        self.ds = io._retrieve_from_url(str(path), reader) if validators.url(str(path)) else reader(Path(path))
    self.index = {}


def open_h5_out(self, path, **kwargs):
    check_optional_dependency("tables", "text")
    path = Path(path)
    self._hdf5_handle = path.open("w")
    self.ds = pd.HDFStore(path, mode="w", **kwargs)
    self.index = {}


def open_nc_in(self, path):
    self.path = path
    if isinstance(path, (str | Path)):
        self.ds = io._retrieve_from_url(str(path), xr.open_dataset) if validators.url(str(path)) else xr.open_dataset(Path(path))
    else:
        self.ds = path


def open_nc_out(self, path, compression={"zlib": True, "complevel": 4}, float32=False):
    self.path = path
    self.compression = compression
    self.float32 = float32
    self.ds = xr.Dataset()


# ------------------------------------------------------------ pypower
def pypower(n, ppc, overwrite_zero_s_nom=None):
    """all values in the units of the network: ohm and siemens for lines, per unit of the rating for transformers"""
    base = ppc["baseMVA"]
    names = ["type", "Pd", "Qd", "Gs", "Bs", "area", "v_mag_pu_set", "v_ang_set", "v_nom", "zone", "v_mag_pu_max", "v_mag_pu_min"]
    buses = pd.DataFrame(index=np.array(ppc["bus"][:, 0], dtype=int), columns=names, data=ppc["bus"][:, 1 : len(names) + 1])
    if (buses["v_nom"] == 0.0).any():
        buses.loc[buses["v_nom"] == 0.0, "v_nom"] = 1.0
    controls = ["", "PQ", "PV", "Slack"]
    buses["control"] = buses.pop("type").map(lambda i: controls[int(i)])

    loads = buses.loc[buses[["Pd", "Qd"]].any(axis=1), ["Pd", "Qd"]]
    loads["bus"] = loads.index
    loads.rename(columns={"Qd": "q_set", "Pd": "p_set"}, inplace=True)
    loads.index = [f"L{str(i)}" for i in range(len(loads))]

    shunt = buses.loc[buses[["Gs", "Bs"]].any(axis=1), ["v_nom", "Gs", "Bs"]]
    shunt["g"] = shunt["Gs"] / shunt["v_nom"] ** 2
    shunt["b"] = shunt["Bs"] / shunt["v_nom"] ** 2
    shunts = shunt.reindex(columns=["g", "b"])
    shunts["bus"] = shunts.index
    shunts.index = [f"S{str(i)}" for i in range(len(shunts))]

    names = ["bus", "p_set", "q_set", "q_max", "q_min", "v_set_pu", "mva_base", "status", "p_nom", "p_min", "Pc1", "Pc2", "Qc1min", "Qc1max",
             "Qc2min", "Qc2max", "ramp_agc", "ramp_10", "ramp_30", "ramp_q", "apf"]
    generators = pd.DataFrame(index=[f"G{str(i)}" for i in range(len(ppc["gen"]))], columns=names, data=ppc["gen"][:, : len(names)])
    generators["bus"] = np.array(ppc["gen"][:, 0], dtype=int)

    names = ["bus0", "bus1", "r", "x", "b", "s_nom", "rateB", "rateC", "tap_ratio", "phase_shift", "status", "v_ang_min", "v_ang_max"]
    branches = pd.DataFrame(columns=names, data=ppc["branch"][:, : len(names)])
    branches["original_index"] = branches.index
    branches["bus0"] = branches["bus0"].astype(int)
    branches["bus1"] = branches["bus1"].astype(int)
    unrated = branches["s_nom"] == 0.0
    if unrated.any():
        if overwrite_zero_s_nom is not None:
            branches.loc[unrated, "s_nom"] = overwrite_zero_s_nom
    v_nom = branches.bus0.map(buses.v_nom)
    others = branches.bus1.map(buses.v_nom)
    is_trafo = (v_nom != others) | ((branches.tap_ratio != 0.0) & (branches.tap_ratio != 1.0)) | (branches.phase_shift != 0)
    trafos = pd.DataFrame(branches[is_trafo])
    lines = branches[~is_trafo].drop(["tap_ratio", "phase_shift"], axis=1)
    trafos["r"] = trafos["r"] * trafos["s_nom"] / base
    trafos["x"] = trafos["x"] * trafos["s_nom"] / base
    trafos["b"] = trafos["b"] * base / trafos["s_nom"]
    lines["r"] = v_nom**2 * lines["r"] / base
    lines["x"] = v_nom**2 * lines["x"] / base
    lines["b"] = lines["b"] * base / v_nom**2
    if (trafos["tap_ratio"] == 0.0).any():
        trafos.loc[trafos["tap_ratio"] == 0.0, "tap_ratio"] = 1.0
    trafos.index = [f"T{str(i)}" for i in range(len(trafos))]
    lines.index = [f"L{str(i)}" for i in range(len(lines))]

    n.add("Bus", buses.index, **buses)
    n.add("Load", loads.index, **loads)
    n.add("Generator", generators.index, **generators)
    n.add("Line", lines.index, **lines)
    n.add("Transformer", trafos.index, **trafos)
    n.add("ShuntImpedance", shunts.index, **shunts)
    n.generators["control"] = n.generators.bus.map(n.buses["control"])
    n.buses.loc[n.generators.bus, "v_mag_pu_set"] = np.asarray(n.generators["v_set_pu"])


# ------------------------------------------------------------ pandapower
def at_bus(net, positions):
    return net.bus.name.loc[positions].values


def pandapower(n, net, extra_line_data=False, use_pandapower_index=False):
    buses = pd.DataFrame({"v_nom": net.bus.vn_kv.values, "v_mag_pu_set": 1.0}, index=net.bus.name)
    buses.loc[at_bus(net, net.gen.bus), "v_mag_pu_set"] = net.gen.vm_pu.values
    buses.loc[at_bus(net, net.ext_grid.bus), "v_mag_pu_set"] = net.ext_grid.vm_pu.values

    loads = pd.DataFrame({"p_set": (net.load.scaling * net.load.p_mw).values, "q_set": (net.load.scaling * net.load.q_mvar).values,
                          "bus": at_bus(net, net.load.bus)}, index=net.load.name)

    controlled = pd.DataFrame({"p_set": (net.gen.scaling * net.gen.p_mw).values, "q_set": 0.0, "bus": at_bus(net, net.gen.bus), "control": "PV"}, index=net.gen.name)
    static = pd.DataFrame({"p_set": (net.sgen.scaling * net.sgen.p_mw).values, "q_set": (net.sgen.scaling * net.sgen.q_mvar).values,
                           "bus": at_bus(net, net.sgen.bus), "control": "PQ"}, index=net.sgen.name)
    grids = pd.DataFrame({"control": "Slack", "p_set": 0.0, "q_set": 0.0, "bus": at_bus(net, net.ext_grid.bus)}, index=net.ext_grid.name.fillna("External Grid"))
    generators = pd.concat([controlled, static, grids], ignore_index=use_pandapower_index)

    ends = {"bus0": at_bus(net, net.line.from_bus), "bus1": at_bus(net, net.line.to_bus), "length": net.line.length_km.values,
            "num_parallel": net.line.parallel.values}
    if extra_line_data is False:
        lines = pd.DataFrame({"type": net.line.std_type.values, **ends}, index=net.line.name)
    else:
        length = net.line.length_km.values
        systems = net.line.parallel.values
        lines = pd.DataFrame({
            "r": net.line.r_ohm_per_km.values * length / systems,
            "x": net.line.x_ohm_per_km.values * length / systems,
            "b": net.line.c_nf_per_km.values * length * 1e-9 * systems * 2 * math.pi * net.f_hz,
            "s_nom": np.sqrt(3) * net.bus.vn_kv.loc[net.line.from_bus].values * net.line.max_i_ka.values * systems,
            **ends}, index=net.line.name)

    between = {"bus0": at_bus(net, net.trafo.hv_bus), "bus1": at_bus(net, net.trafo.lv_bus), "tap_position": net.trafo.tap_pos.values}
    if net.trafo.std_type.any():
        trafos = pd.DataFrame({"type": net.trafo.std_type.values, "num_parallel": net.trafo.parallel.values, **between}, index=net.trafo.name)
    else:
        z = net.trafo.vk_percent.values / 100.0
        r = net.trafo.vkr_percent.values / 100.0
        y = net.trafo.i0_percent.values / 100.0
        g = net.trafo.pfe_kw.values / 1000 / net.trafo.sn_mva.values
        trafos = pd.DataFrame({
            "phase_shift": net.trafo.shift_degree.values, "s_nom": net.trafo.sn_mva.values * net.trafo.parallel.values,
            "r": r, "x": np.sqrt(z**2 - r**2), "g": g, "b": -np.sqrt(np.maximum(y**2 - g**2, 0)), **between}, index=net.trafo.name)
    trafos = trafos.fillna(0)

    shunts = pd.DataFrame({"bus": at_bus(net, net.shunt.bus), "g": net.shunt.p_mw.values / net.shunt.vn_kv.values**2,
                           "b": -net.shunt.q_mvar.values / net.shunt.vn_kv.values**2}, index=net.shunt.name).fillna(0)

    n.add("Bus", buses.index, **buses)
    n.add("Load", loads.index, **loads)
    n.add("Generator", generators.index, **generators)
    n.add("Line", lines.index, **lines)
    n.add("Transformer", trafos.index, **trafos)
    n.add("ShuntImpedance", shunts.index, **shunts)

    # buses joined by closed switches are one bus
    switches = net.switch[(net.switch.et == "b") & net.switch.closed]
    switches["stays"] = switches.bus.map(net.bus.name)
    switches["goes"] = switches.element.map(net.bus.name)
    merged = {}
    for stays, goes in zip(switches.stays.values, switches.goes.values):
        stays, goes = merged.get(stays, stays), merged.get(goes, goes)
        if stays != goes:
            merged = {k: stays if v == goes else v for k, v in merged.items()}
            merged[goes] = stays
    to_replace = pd.Series(merged, dtype=object)
    for i in to_replace.index:
        n.remove("Bus", i)
    for c in n.iterate_components({"Load", "Generator", "ShuntImpedance"}):
        c.static.replace({"bus": to_replace}, inplace=True)
    for c in n.iterate_components({"Line", "Transformer"}):
        c.static.replace({"bus0": to_replace}, inplace=True)
        c.static.replace({"bus1": to_replace}, inplace=True)

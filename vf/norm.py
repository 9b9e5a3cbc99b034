"""Domain knowledge of the analysis: normal forms for the pandas / xarray / linopy
vocabulary used by the analysed tree, the network object model, and the primitives.

Everything here maps source expressions to terms; nothing is evaluated.
"""
from __future__ import annotations

import ast
import re

from .repo import dotted_name
from .terms import *  # noqa: F403
from .terms import _poly_dict, _from_poly

MUTATORS = {"append", "extend", "insert", "update", "pop", "remove", "add", "discard", "clear", "sort",
            "setdefault", "popitem", "drop_inplace", "intersection_update", "difference_update"}

VALUELESS = {"append", "extend", "insert", "update", "remove", "add", "discard", "clear", "sort"}


def mutates(node):
    """the call changes its receiver: a method which returns nothing, or one used for its value which also changes it"""
    return node.func.attr in MUTATORS and (node.func.attr not in VALUELESS or getattr(node, "_vf_stmt", False))


# ---------------------------------------------------------------- primitives
# functions of the analysed tree which stay symbolic (verified by their own lemma)
PRIMS = {
    "pypsa.descriptors.get_switchable_as_dense",
    "pypsa.descriptors.get_activity_mask",
    "pypsa.descriptors.get_active_assets",
    "pypsa.components.descriptors.get_active_assets",
    "pypsa.descriptors.expand_series",
    "pypsa.common.as_index",
    "pypsa.components.common.as_components",
    "pypsa.networks.Network.copy",
    "pypsa.networks.Network.determine_network_topology",
    "pypsa.pf.calculate_dependent_values",
    "pypsa.consistency.consistency_check",
    "pypsa.networks.SubNetwork.branches",
    "pypsa.networks.SubNetwork.components",
    "pypsa.pf.calculate_B_H",
    "pypsa.optimization.common.get_strongly_meshed_buses",
}
# primitives with observable side effects (recorded as call effects)
EFFECT_PRIMS = {
    "pypsa.networks.Network.determine_network_topology",
    "pypsa.pf.calculate_dependent_values",
    "pypsa.consistency.consistency_check",
    "pypsa.pf.calculate_B_H",
}
SHORT = {}

NOMINAL = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom",
           "StorageUnit": "p_nom"}

TRANSPARENT_METHODS = {"copy", "to_xarray", "to_numpy", "toarray", "to_index", "tolist", "to_list",
                       "rename_axis", "infer_objects", "squeeze_", "set_names", "to_series_", "assign_coords_"}
# transparent constructors (one argument)
WRAPPERS = {"xarray.DataArray", "pandas.Index", "pandas.Series", "builtins.list", "builtins.tuple", "numpy.asarray", "numpy.array",
            "pypsa.definitions.structures.Dict", "copy.copy", "copy.deepcopy", "builtins.iter"}

ELEMENTWISE = {"and", "or", "not", "eq", "ne", "lt", "le", "isnull", "notnull", "fillna", "where", "ind", "pow", "isin",
               "clip", "abs", "round", "fmap", "astype", "sqrt", "real", "imag", "conj", "exp", "mod", "floordiv"}
LINEAR_METHODS = {"sum", "cumsum", "shift", "diff", "roll", "mean"}
IDX_SETOPS = {"intersection", "difference", "union"}

DATA_METHODS = set("""abs add agg aggregate all any append apply applymap argmax argmin asfreq assign assign_coords astype at at_time bfill
bool clip columns combine_first copy corr cov count cummax cummin cumprod cumsum data describe diff difference dims div divide dot
drop drop_duplicates droplevel dropna drop_vars dtype dtypes duplicated empty eq equals eval expand_dims explode ewm ffill fillna filter first
floordiv from_tuples from_arrays from_product ge get get_indexer get_level_values get_loc groupby gt head hist iat idxmax idxmin iloc index indexes indices info insert interpolate intersection
isel isin isna isnull item items iterrows itertuples join keys kurt last le len level levels loc lt map mask max mean median melt merge min
mod mul multiply name names ndim ne nlargest notna notnull nsmallest nunique pct_change pipe pivot pivot_table plot pop pow prod product
quantile query rank reindex reindex_like rename rename_axis reorder_levels repeat replace resample reset_index roll rolling round sample sel
searchsorted set_axis set_index set_names shape shift size skew slice_indexer sort_index sort_values squeeze stack std str sub subtract sum swapaxes swaplevel symmetric_difference
tail take to_dict to_frame to_index to_list tolist to_numpy to_pandas to_series to_xarray transform transpose truediv truncate T tz_localize
union unique unstack update value_counts values var vars coeffs coords where xs div rsub rdiv radd rmul dt cat sparse
linexpr add_variables add_constraints add_objective variables constraints parameters objective solve solution dual remove
append extend todense toarray tocoo tocsr tocsc tolil getcol data row col nonzero diagonal conj real imag
iterate_components subnetworks append discard split rsplit strip lstrip rstrip startswith endswith replace lower upper format join isidentifier
is_unique has_duplicates hasnans nlevels isdisjoint issubset issuperset exists is_dir mkdir joinpath stem suffix parent
fix relax unfix lower upper type binaries integers continuous assign add_lhs rhs lhs sign flat labels ravel flatten reshape __len__ freq""".split())


def init_short():
    for p in PRIMS:
        SHORT[p] = p.rsplit(".", 1)[-1]


init_short()


# ---------------------------------------------------------------- small helpers
def T_(x):
    return x if isinstance(x, T) else const(x)


def is_net(t):
    return t.op == "net"


def static_type(t):
    if t.op == "net":
        return "Network"
    if t.op == "comp":
        return "Components" if len(t.args) == 2 else None
    if t.op == "cobj":
        return "Components"
    if t.op == "sub" or (t.op == "at" and t.args[0].op == "static" and t.args[0].args[1] is const("SubNetwork") and const("obj") in t.args[1] and len(t.args[1]) > 1):
        return "SubNetwork"
    if t.op == "elem":
        it = t.args[0]
        if it.op == "at" and it.args[0].op == "static" and it.args[0].args[1] is const("SubNetwork") and const("obj") in it.args[1]:
            return "SubNetwork"
    if t.op == "new" or (t.op == "param" and len(t.args) > 2 and str(t.args[2]).startswith("pypsa.")):
        return t.args[0 if t.op == "new" else 2].rsplit(".", 1)[-1]
    return None


def is_net_like(I, o):
    return I.typeof(o) in ("Network", "SubNetwork", "Components")


PATH_ROOTS = {"net", "param"}


def is_path(t):
    """term denotes an object reachable from an entry parameter (or a shared object), not a fresh value"""
    while True:
        if t.op in ("net", "static", "dynamic", "cobj", "model", "param", "sub", "cattrs"):
            return True
        if t.op == "attr":
            if t.args[1] in ("index", "columns", "values", "T", "name", "names", "str", "dt", "shape", "size"):
                return False
            t = t.args[0]
            continue
        if t.op == "at":
            # label selection of a column / attribute keeps identity, masks / lists give copies
            if all(is_str(k) or k.op in ("cat", "elem") or one_label(k) for k in t.args[1]):
                t = t.args[0]
                continue
            if t.args[0].op == "dynamic" and len(t.args[1]) == 1 and t.args[1][0].op in ("param", "loopvar", "fmt", "bound", "at", "last", "call"):
                return True     # one table of the time-dependent data
            return False
        if t.op == "elem":
            t = t.args[0]
            continue
        if t.op == "loopvar":       # still one of the objects it went through
            t = t.args[2]
            continue
        if t.op == "last" and len(t.args) == 3 and is_path(t.args[2]):
            t = t.args[1]
            continue
        if t.op == "fold" and is_path(t.args[1]):
            t = t.args[2]
            continue
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.getattr":
            t = t.args[1][0]
            continue
        return t.op == "ext" and t.args[0].startswith("pypsa.")     # a collection of a module


def one_label(k):
    """a string: parameter of this type, or a piece of one"""
    if k.op == "at" and k.args[0].op == "call" and k.args[0].args[0].op == "attr" and k.args[0].args[0].args[1] in ("split", "rsplit"):
        return one_label(k.args[0].args[0].args[0])
    return k.op == "param" and len(k.args) > 2 and k.args[2] == "builtins.str"


def all_paths(t):
    return is_path(t) if t.op != "ite" else nleaves(t) <= 8 and all(is_path(x) for _, x in leaves(t))


def contains_path_root(t):
    return False


def mutable_path(I, t):
    return t.op in ("attr", "at", "static", "dynamic", "param") and axes(t) != E0


def scalar_like(I, t):
    ty = I.typeof(t)
    return ty in ("int", "float", "str", "bool")


def loc_key(kind, k):
    if kind in ("iloc", "iat"):
        return mk("pos", k)
    return k


def canon_store(I, obj, key):
    if obj.op == "net" and is_str(key):
        return canon_attr_store(I, obj, key.args[0])
    # <dynamic>.loc / nested at: split trailing keys
    return obj, key


def canon_attr_store(I, obj, name):
    if obj.op == "net":
        lists = list_names(I)
        if name in lists:
            return mk("cobj", obj, const(lists[name])), const("static")
        if name.endswith("_t") and name[:-2] in lists:
            return mk("cobj", obj, const(lists[name[:-2]])), const("dynamic")
    if obj.op == "cobj":
        if name == "df":
            name = "static"
        if name == "pnl":
            name = "dynamic"
    return obj, const(name)


def list_names(I):
    if not hasattr(I, "_list_names"):
        I._list_names = {r["list_name"]: c for c, r in I.repo.components().items()}
    return I._list_names


def raw_item(obj, key):
    if obj.op in ("net", "cobj", "model") and is_str(key):
        return mk("attr", obj, key.args[0])
    if obj.op == "param" and is_str(key):
        return mk("attr", obj, key.args[0])
    return at_raw(obj, key)


def attr_key(o, name):
    return const(name)


def is_data(o):
    return True


def covers(key, k2):
    """a store under key replaces everything a store under k2 wrote"""
    if key is k2 or key is FULL:
        return True
    if key.op != "tuple" or k2.op != "tuple" or len(key.args) != 2 or len(k2.args) != 2:
        return False
    within = lambda a, b: a is b or a is FULL or b.op == "elem" and b.args[0] is a
    return within(key.args[0], k2.args[0]) and within(key.args[1], k2.args[1])


def upd2(old, key, v):
    """table old with the entries under key replaced by v"""
    return mk("upd2", before(old, key), key, v)


def before(old, key):
    """old without the earlier stores that one under key replaces"""
    if old.op == "upd2":
        b = before(old.args[0], key)
        if covers(key, old.args[1]):
            return b
        return old if b is old.args[0] else mk("upd2", b, *old.args[1:])
    if old.op == "ite" and nleaves(old) <= MAX_LEAVES:
        return lift(lambda x: before(x, key), old)
    if old.op == "looped":
        v, b = before(old.args[2], key), before(old.args[1], key)
        return b if v is b else mk("looped", old.args[0], b, v)
    return old


def upd(cur, key, v):
    if cur.op == "dict" and (is_const(key) or key.op in ("cat", "elem")):
        d = dict(cur.args[0])
        d[key] = v
        return mkdict(d)
    if (cur.op == "ite" or v.op == "ite") and nleaves(cur) * nleaves(v) <= MAX_LEAVES:
        return lift(lambda c, w: upd(c, key, w), cur, v)
    # overwrite of the same key
    if cur.op == "upd" and cur.args[1] is key:
        return mk("upd", cur.args[0], key, v)
    return mk("upd", cur, key, v)


def mkset(xs):
    u = {x.key: x for x in xs}
    return mk("set", *[u[k] for k in sorted(u)])


def mkdict(d):
    return mk("dict", tuple(sorted(d.items(), key=lambda kv: kv[0].key)))


def str_format(o, args, kwargs):
    """'...{}...'.format(...) as concatenation"""
    import string
    if not is_str(o):
        return None
    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(o.args[0]):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if spec or conv:
                return None
            if field == "":
                v, auto = args[auto], auto + 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                return None
            if v.op == "star":
                return None
            parts.append(to_str(v))
    except (ValueError, IndexError):
        return None
    return lift(lambda *p: cat(list(p)), *parts) if parts else const("")


def str_percent(a, b):
    if not is_str(a):
        return None
    bits = re.split(r"(%s|%d|%%)", a.args[0])
    vals = list(b.args) if b.op == "tuple" else [b]
    if any("%" in x for x in bits if x not in ("%s", "%d", "%%")):
        return None
    parts = []
    for x in bits:
        if x in ("%s", "%d"):
            if not vals:
                return None
            parts.append(to_str(vals.pop(0)))
        elif x:
            parts.append(const("%" if x == "%%" else x))
    return lift(lambda *p: cat(list(p)), *parts) if parts and not vals else None


def to_str(x):
    def f(x):
        if x.op in ("const", "num"):
            return const(str(cval(x)))
        return x
    return lift(f, x)


def external(dotted):
    d = dotted
    for a, b in (("pd.", "pandas."), ("np.", "numpy.")):
        if d.startswith(a):
            d = b + d[len(a):]
    if d in ("numpy.inf", "math.inf"):
        return const(float("inf"))
    if d == "numpy.nan":
        return mk("ext", "nan")
    if d.startswith("linopy.") and d.endswith("merge"):
        return mk("ext", "linopy.merge")
    if d.startswith("xarray.") and d.endswith("DataArray"):
        return mk("ext", "xarray.DataArray")
    return mk("ext", d)


def module_value(I, mod, name, expr):
    if isinstance(expr, ast.Call):
        d = dotted_name(expr.func)
        if d and d.endswith("read_csv"):
            for x in ast.walk(expr):
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith(".csv"):
                    return mk("csv", x.value, ())
        if d and d.endswith("getLogger"):
            return mk("ext", "logger")
    return None


def filled_later(mod, name, expr):
    """a collection of a module which the module changes after making it"""
    if not isinstance(expr, (ast.Dict, ast.List, ast.Set)) and not (isinstance(expr, ast.Call) and dotted_name(expr.func) in ("dict", "list", "set")):
        return False
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == name:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name and x.func.attr in MUTATORS | {"setdefault"}:
            return True
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
            return True
    return False


# ---------------------------------------------------------------- boolean view
def is_bool(t):
    return any(v in (TRUE, FALSE) for _, v in leaves(t)) if t.op == "ite" else t in (TRUE, FALSE) or t.op in (
        "and", "or", "not", "same", "eq", "ne", "lt", "le", "isnull", "notnull", "in", "empty", "isinstance", "isin", "all", "any")


LISTOPS = ("list", "tuple", "set", "concat", "glist", "comp")


def dictmerge(parts):
    """mappings merged from left to right"""
    out = []
    for p in parts:
        out.extend(p.args if p.op == "dictmerge" else [p])
    res = []
    for p in out:
        if p.op == "dict" and not p.args[0]:
            continue
        if p.op == "dict" and res and res[-1].op == "dict":
            d = dict(res[-1].args[0])
            d.update(dict(p.args[0]))
            res[-1] = mkdict(d)
        elif p.op == "updover" and res and p.args[0].op == "dict" and not p.args[0].args[0]:
            # the entries of a comprehension put into what was there before
            res = [mk("updover", res[0] if len(res) == 1 else mk("dictmerge", *res), *p.args[1:])]
        else:
            res.append(p)
    if not res:
        return mk("dict", ())
    return res[0] if len(res) == 1 else mk("dictmerge", *res)


def truth(t):
    if t.op == "ite":
        return lift_truth(t)
    return truth1(t)


def lift_truth(t):
    c, a, b = t.args
    return ite(mk("ite", c, TRUE, FALSE), truth(a), truth(b))


def truth1(t):
    if t.op == "const":
        return const(bool(t.args[0]))
    if t.op == "num":
        return const(t.args[0] != 0)
    if t.op in ("list", "tuple", "set"):
        return const(len(t.args) > 0)
    if t.op == "dict":
        return const(len(t.args[0]) > 0)
    if t.op in ("concat",):
        if any(p.op in ("list", "tuple") for p in t.args):
            return TRUE
        parts = sorted({truth(p) for p in t.args}, key=lambda p: p.key)
        if len(parts) > 6 and sum(nleaves(p) for p in parts) > 60:
            return b_not(mk("ite", mk("empty", mk("anyof", *parts)), TRUE, FALSE))
        r = FALSE
        for p in parts:
            r = b_or(r, p)
        return r
    if t.op == "glist":
        return b_and(t.args[0], truth(t.args[1]))
    if t.op in ("closure", "fn", "cls", "mod", "net", "static_", "new", "lam"):
        return TRUE
    if t.op == "and":
        r = TRUE
        for x in t.args:
            r = b_and(r, truth(x))
        return r
    if t.op == "or":
        r = FALSE
        for x in t.args:
            r = b_or(r, truth(x))
        return r
    if t.op == "not":
        return b_not(truth(t.args[0]))
    if t.op == "ne":
        return b_not(truth(mk("eq", *t.args)))
    if t.op == "le":
        return b_not(truth(cmp("lt", t.args[1], t.args[0])))
    if t.op == "notnull":
        return b_not(truth(mk("isnull", *t.args)))
    if t.op == "any":
        return b_not(truth(mk_all(e_not(t.args[0]))))
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.int", "builtins.bool", "builtins.float") and len(t.args[1]) == 1:
        return truth(t.args[1][0])
    # counting the rows a mask selects
    m = mask_count(t)
    if m is not None:
        return b_not(no_rows(m))
    if t.op == "pos_of" or (t.op == "elem" and t.args[0].op == "range"):
        return b_not(truth(mk("eq", *sorted((t, ZERO)))))
    if t.op == "eq":
        for a, b in (t.args, t.args[::-1]):
            if b is ZERO and mask_count(a) is not None:
                return no_rows(mask_count(a))
    if t.op == "lt" and t.args[0] is ZERO and mask_count(t.args[1]) is not None:
        return b_not(no_rows(mask_count(t.args[1])))
    if t.op == "all" and mask_root(t.args[0]) is not None:
        return no_rows(e_not(t.args[0]))
    if t.op == "len":
        return b_not(empty(t.args[0]))
    if t.op == "eq":
        for a, b in (t.args, t.args[::-1]):
            if a.op == "len" and b is ZERO:
                return empty(a.args[0])
    if t.op == "lt" and t.args[0] is ZERO and t.args[1].op == "len":
        return b_not(empty(t.args[1].args[0]))
    if t.op == "lt" and t.args[1] is ONE and t.args[0].op == "len":
        return empty(t.args[0].args[0])
    if t.op == "lt" and t.args[0] is ZERO and t.args[1].op == "poly":
        # 0 < 1 - len(x)
        d = dict(t.args[1].args[0])
        if len(d) == 2 and d.get(()) == 1:
            (m, c), = [(m, c) for m, c in d.items() if m]
            if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len":
                return empty(m[0][0].args[0])
    return mk("ite", t, TRUE, FALSE)


def range_tables(t):
    """the static tables whose rows an elementwise value ranges over (tables that only serve as a
    lookup or as the values of a membership test do not count)"""
    o = t.op
    if o == "at":
        if t.args[0].op == "static":
            return {t.args[0]}
        return range_tables(t.args[0])
    if o == "static":
        return {t}
    if o in ("fmap", "updrow", "upd2", "isin"):
        return range_tables(t.args[0])
    if o in ("num", "const", "dynamic"):
        return set()
    if o == "poly":
        r = set()
        for m, c in t.args[0]:
            for x, e in m:
                r |= range_tables(x)
        return r
    r = set()
    for a in t.args:
        if isinstance(a, T):
            r |= range_tables(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    r |= range_tables(b)
    return r


def ranging_sel(t):
    """some ranging part of t is already restricted to a selection of rows"""
    o = t.op
    if o == "at":
        return any(k.op == "idx" for k in t.args[1]) or ranging_sel(t.args[0])
    if o in ("fmap", "updrow", "upd2", "isin"):
        return ranging_sel(t.args[0])
    if o in ("num", "const", "static", "dynamic"):
        return False
    if o == "poly":
        return any(ranging_sel(x) for m, c in t.args[0] for x, e in m)
    return any(ranging_sel(x) for x in subterms(t))


def mask_root(m):
    """the static table whose rows the boolean mask m ranges over"""
    if m.op not in ("eq", "ne", "lt", "le", "and", "or", "not", "isnull", "notnull", "isin", "active", "at") or not boolean_like(m):
        return None
    if axes(m) != frozenset("c") or ranging_sel(m):
        return None
    roots = range_tables(m)
    return next(iter(roots)) if len(roots) == 1 else None


def mask_count(t):
    if t.op == "sum" and t.args[1] == () and mask_root(t.args[0]) is not None:
        return t.args[0]
    return None


def no_rows(m):
    return empty(mk("idx", mask_root(m), m))


def empty(x):
    """truth diagram of 'x has no entries'"""
    return lift(_empty1, x)


def _empty1(x):
    if x.op in ("list", "tuple", "set"):
        return const(not x.args)
    if x.op == "dict":
        return const(not x.args[0])
    if x.op in ("concat", "glist"):
        return b_not(truth(x))
    if x.op == "comp":
        return mk("ite", mk("empty", x), TRUE, FALSE)
    if is_str(x):
        return const(x.args[0] == "")
    return mk("ite", mk("empty", emptiness_key(x)), TRUE, FALSE)


def emptiness_key(x):
    """canonical representative of the label set deciding whether x is empty"""
    if x.op == "attr" and x.args[1] in ("index", "values", "T"):
        return emptiness_key(x.args[0])
    if x.op == "at":
        root, keys = x.args
        idx = [k for k in keys if k.op == "idx"]
        if idx:
            return idx[0] if len(idx) == 1 else mk("at", idx[0], tuple(idx[1:]))
        if root.op == "static" and all(is_str(k) or k.op == "cols" for k in keys):
            return mk("idx", root, TRUE)
        if root.op == "dense":
            ks = tuple(k for k in keys if key_kind(k) != "t")
            return at_mk(root, ks)
    if x.op == "static":
        return mk("idx", x, TRUE)
    if x.op == "poly":
        # a product is empty iff its (common) label set is
        for m, c in x.args[0]:
            for b, e in m:
                k = emptiness_key(b)
                if k.op == "idx" and k.args[1] is not TRUE:
                    return k
        for m, c in x.args[0]:
            for b, e in m:
                if b.op in ("at", "dense", "where") and axes(b) and "c" in axes(b):
                    return emptiness_key(b)
    return x


# ---------------------------------------------------------------- axes
_AX: dict = {}


def key_kind(k):
    """'t' time label set, 'c' component label set, 't1'/'c1' single label, None unknown"""
    if k.op == "idx":
        return "c"
    if k.op == "attr" and k.args[1] == "index" and k.args[0].op == "group":
        return "c"
    if is_time(k):
        return "t"
    if k.op == "at" and len(k.args[1]) == 1 and is_time(k.args[0]) and (is_num(k.args[1][0])):
        return "t1"
    if k.op == "elem":
        if is_time(k.args[0]):
            return "t1"
        if k.args[0].op == "idx":
            return "c1"
    if k.op in ("eq", "ne", "lt", "le", "and", "or", "not", "isnull", "notnull", "isin", "at", "where", "active"):
        a = axes(k)
        if a == frozenset("c"):
            return "c"
        if a == frozenset("t"):
            return "t"
    return None


def is_time(t):
    while True:
        if t.op == "param" and t.args[0] in ("sns", "snapshots"):
            return True
        if t.op == "prim" and t.args[0] == "as_index":
            return True
        if t.op == "attr" and t.args[1] in ("snapshots", "_snapshots") and t.args[0].op in ("net", "param", "elem", "attr"):
            return True
        if t.op == "at" and len(t.args[1]) == 1 and (t.args[1][0].op in ("slice", "getloc") or key_kind(t.args[1][0]) == "t"):
            t = t.args[0]
            continue
        return False


def axes(t):
    r = _AX.get(t.key, 0)
    if r != 0:
        return r
    _AX[t.key] = None
    r = _axes(t)
    _AX[t.key] = r
    return r


E0 = frozenset()


def _axes(t):
    o = t.op
    if o in ("num", "const"):
        return E0
    if o == "param" and len(t.args) > 1:
        return frozenset(t.args[1])
    if o in ("dense", "activity"):
        return frozenset("tc")
    if o == "attr" and t.args[1] == "name" and t.args[0].op in ("sub", "cobj"):
        return E0
    if o == "active":
        return frozenset("c") if t.args[2] is NONE or not multi(t.args[2]) else frozenset("c")
    if o == "var":
        nm = t.args[0]
        if is_str(nm):
            c, _, a = nm.args[0].partition("-")
            if a in ("p_nom", "s_nom", "e_nom", "n_mod"):
                return frozenset("c")
            return frozenset("tc")
        return None
    if o == "at":
        root, keys = t.args
        if root.op == "static":
            cols = [k for k in keys if is_str(k) or k.op == "cat"]
            if not cols:
                return None
            base = frozenset("c")
        elif root.op == "dynamic":
            cols = [k for k in keys if is_str(k) or k.op == "cat"]
            if not cols:
                return None
            base = frozenset("tc")
        elif root.op == "attr" and root.args[1] in ("snapshot_weightings", "_snapshot_weightings"):
            base = frozenset("t")
            cols = [k for k in keys if is_str(k)]
            if not cols:
                return None
        elif root.op == "attr" and root.args[1] in ("investment_period_weightings", "_investment_period_weightings"):
            base = frozenset("p")
            cols = [k for k in keys if is_str(k)]
        elif is_time(root) and len(keys) == 1 and is_num(keys[0]):
            return E0
        else:
            base = axes(root)
            cols = []
            if base is None:
                return None
        out = set(base)
        for k in keys:
            if k in cols:
                continue
            kk = key_kind(k)
            if kk in ("t1", "c1"):
                out.discard(kk[0])
            elif kk is None and k.op == "pos":
                if k.args[0].op == "slice":
                    continue
                if "t" in out:
                    out.discard("t")
                elif len(out) == 1:
                    out = set()
                else:
                    return None
            elif kk is None:
                return None
        return frozenset(out)
    if o == "poly":
        out = E0
        for m, c in t.args[0]:
            for b, e in m:
                a = axes(b)
                if a is None:
                    return None
                out |= a
        return out
    if o in ELEMENTWISE:
        out = E0
        for x in subterms(t):
            if o in ("isin", "fmap") and x is not t.args[0]:
                continue
            a = axes(x)
            if a is None:
                return None
            out |= a
        return out
    if o in ("shift", "roll", "updrow", "upd2"):
        return axes(t.args[0])
    if o == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "apply" and len(t.args[1]) == 1 and t.args[1][0].op == "lam":
        body = t.args[1][0].args[1]  # a row-wise scaling keeps the shape
        if body.op == "poly" and all(any(b.op == "bound" and e == 1 for b, e in m) for m, c in body.args[0]):
            return axes(t.args[0].args[0])
    if o in ("sum", "mean", "max", "min") and len(t.args) == 2 and t.args[1] == ():
        a = axes(t.args[0])
        if a is not None and len(a) == 1:
            return E0
    return None


def multi(t):
    return t.op in ("list", "idx", "at")


# ---------------------------------------------------------------- selection
def at_raw(base, *keys):
    if base.op == "at":
        return mk("at", base.args[0], tuple(sorted(set(base.args[1]) | set(keys), key=lambda k: k.key)))
    return mk("at", base, tuple(sorted(set(keys), key=lambda k: k.key)))


def at_mk(root, keys):
    return mk("at", root, tuple(sorted(set(keys), key=lambda k: k.key))) if keys else root


def derived_from(k, base):
    """k is a selection out of label set base"""
    while k.op == "at":
        if k.args[0] is base:
            return True
        k = k.args[0]
    if k.op == "elem" and k.args[0] is base:
        return True
    return False


def is_positional(k):
    return k.op in ("pos", "num", "slice") or (k.op == "const" and not isinstance(k.args[0], str))


def at(I, base, key):
    if base.op == "ite" or key.op == "ite":
        return lift(lambda b, k: at1(I, b, k), base, key)
    return at1(I, base, key)


FULL = mk("slice", NONE, NONE, NONE)


TIME_ONLY = {"shift", "roll", "rollsum", "ffill", "bfill", "cumsum"}


def completed(base):
    """D completed with f(k) for the k of S that are not in D -> (D, S, f's element, f)"""
    D, it, k, v = base.args
    if it.op != "difference" or k.op != "elem" or k.args[0] is not it:
        return None

    def bare(x):
        while x.op in ("setof", "keys") and len(x.args) == 1:
            x = x.args[0]
        return x
    if bare(it.args[1]) is not bare(D):
        return None
    return D, bare(it.args[0]), k, v


def completed_item(I, base, key):
    """item of a dict completed for the keys of a set the key comes from: what it held before, or the completion"""
    c = completed(base)
    s = key.args[0]
    while s.op in ("setof", "keys") and len(s.args) == 1:
        s = s.args[0]
    if c is None or c[1] is not s:
        return None
    D, _, k, v = c
    new = substitute(v, {id(k): key})
    while D.op == "updover":
        # completed before, with the same values: whether the key was among those does not matter
        c = completed(D)
        if c is None or substitute(c[3], {id(c[2]): key}) is not new:
            break
        D = c[0]
    return ite(mk("ite", truth(contains_term(I, key, D)), TRUE, FALSE), at(I, D, key), new)


def at1(I, base, key):
    if base.op == "ext" and base.args[0] in ("numpy.r_", "numpy.c_"):
        parts = key.args if key.op == "tuple" else (key,)
        # r_[:n] is arange(n)
        parts = [mk("call", mk("ext", "numpy.arange"), (p.args[1],), ()) if p.op == "slice" and p.args[0] in (NONE, ZERO) and p.args[2] is NONE and p.args[1] is not NONE else p for p in parts]
        if len(parts) == 1:
            return parts[0]
        return mk("npcat", base.args[0], *parts)
    if base.op == "updover" and key.op == "elem":
        r = completed_item(I, base, key)
        if r is not None:
            return r
    if base.op == "full" and not (key.op == "tuple"):
        return base
    if base.op in TIME_ONLY and key.op != "tuple":
        kk = key_kind(key)
        ax = axes(base.args[0])
        if kk in ("c", "c1") and ax is not None and "t" in ax:
            inner = at1(I, base.args[0], key)
            return lin(base.op, inner, *base.args[1:]) if base.op not in ("ffill", "bfill") else mk(base.op, inner, *base.args[1:])
        if model_time(key) and ax is not None and "t" in ax and has_var(base):
            return base
    if base.op == "at" and base.args[0].op in TIME_ONLY and key.op != "tuple" and key_kind(key) in ("c", "c1"):
        ax = axes(base.args[0].args[0])
        if ax is not None and "t" in ax and "c" in ax:
            r = at1(I, base.args[0], key)
            for k in base.args[1]:
                r = at1(I, r, k)
            return r
    if base.op == "at" and any(is_positional(k) for k in base.args[1]) and len(base.args[1]) == 1 and key.op != "tuple" and key_kind(key) in ("c", "c1"):
        ax = axes(base.args[0])
        if ax is not None and "t" in ax and "c" in ax:
            return at1(I, at1(I, base.args[0], key), base.args[1][0])
    if key.op == "slice" and base.op in ELEMENTWISE and base.op not in ("isin", "fmap"):
        ax = axes(base)
        if ax is not None and "t" in ax:
            r = push(I, base, key, "t")
            if r is not None:
                return r
    if base.op == "attr" and base.args[1] in ("loc", "at", "iloc", "iat"):
        o, kind = base.args
        if kind in ("iloc", "iat"):
            if key.op == "tuple":
                r = o
                for k in key.args:
                    r = r if k is FULL else at(I, r, mk("pos", k))
                return r
            return o if key is FULL else at(I, o, mk("pos", key))
        return at(I, o, key)
    if key is FULL:
        return base
    if key is const(Ellipsis):
        return base
    if key.op == "tuple" and base.op not in ("dict",):
        r = base
        if base.op not in ("list", "tuple") and len(key.args) <= 3:
            for k in key.args:
                r = at(I, r, k)
            return r
    if key.op == "closure":
        r = I.call(key, [base], {}, None)
        return at(I, base, r)
    if base.op == "attr" and base.args[0].op == "csvrows" and base.args[1] == "loc" or base.op == "csvrows":
        rows = (base if base.op == "csvrows" else base.args[0]).args[0]
        if is_const(key):
            hits = [const(r[1]) for r in rows if const(r[0]) is key]
            return mk("csvcol", *hits) if hits else mk("nokey", key)
    if base.op == "nokey":
        return base
    if base.op == "dict":
        if is_const(key):
            for k, v in base.args[0]:
                if k is key:
                    return v
        if key.op in ("elem", "at", "cat", "bound"):
            for k, v in base.args[0]:
                if k is key:
                    return v
        if base.args[0] and all(v is base.args[0][0][1] for _, v in base.args[0]):
            return base.args[0][0][1]
        if is_const(key) and base.args[0] and all(is_const(k) for k, _ in base.args[0]):
            return mk("nokey", key)
        return at_raw(base, key)
    if base.op == "upd":
        k = base.args[1]
        if k is key:
            return base.args[2]
        if is_const(k) and is_const(key):
            return at(I, base.args[0], key)
        return at_raw(base, key)
    if base.op == "call" and base.args[0].op == "attr" and base.args[0].args[1] == "join" and is_str(key) and len(base.args[1]) == 1:
        j = joined(I, base, key)
        if j is not None:
            return j
    if base.op == "at" and is_str(key):
        for k in base.args[1]:
            if k.op == "list" and any(c is key for c in k.args):
                return at(I, at_mk(base.args[0], [x for x in base.args[1] if x is not k]), key)
            if k.op == "cols" and key.args[0] in k.args:
                return at(I, at_mk(base.args[0], [x for x in base.args[1] if x is not k]), key)
    r0 = base.args[0] if base.op == "at" else base
    if r0.op == "upd2":
        ks = (set(base.args[1]) if base.op == "at" else set()) | {key}
        st = r0.args[1]
        if ks == (set(st.args) if st.op == "tuple" else {st}):
            return r0.args[2]
    if base.op == "updrow" and base.args[1] is key:
        return base.args[2]
    if base.op in ("list", "tuple") or (base.op in ("concat",) and False):
        if is_num(key) and key.args[0].denominator == 1:
            i = int(key.args[0])
            if -len(base.args) <= i < len(base.args):
                return base.args[i]
            return mk("at", base, (key,))
        if key.op == "slice" and all(x is NONE or is_num(x) for x in key.args):
            s = slice(*[None if x is NONE else int(x.args[0]) for x in key.args])
            return mk(base.op, *base.args[s])
        return mk("at", base, (key,))
    if is_str(base):
        if is_num(key):
            try:
                return const(base.args[0][int(key.args[0])])
            except IndexError:
                pass
        if key.op == "slice" and all(x is NONE or is_num(x) for x in key.args):
            s = slice(*[None if x is NONE else int(x.args[0]) for x in key.args])
            return const(base.args[0][s])
        return mk("at", base, (key,))
    if base.op == "csv":
        return mk("at", base, (key,))
    if base.op == "cobj" and is_str(key):
        return attr(I, base, key.args[0], None)
    if base.op == "compstore":
        return comp_by_key(I, base.args[0], key)
    if base.op == "subcompstore":
        return sub_comp(I, base.args[0], key)
    if base.op == "subdyn":
        rows = sub_rows(I, *base.args)
        if rows is not None:
            return at(I, at(I, mk("dynamic", net_of_sub(base.args[0]), base.args[1]), key), rows)
    if base.op == "scobj" and is_str(key):
        return attr(I, base, key.args[0], None)
    if base.op == "vars":
        return mkvar(key)
    if base.op == "cons":
        return mk("con_ref", key)
    if base.op == "model":
        return mkvar(key)
    if base.op in ("net",):
        return mk("at", base, (key,))
    # time labels: sns[sns...]
    if base.op == "idx":
        return idx_filter(base, key)
    # heap
    if base.op in ("static", "dynamic", "param", "at", "attr"):
        h = I.heap.get((base, key))
        if h is not None:
            return h
    # columns of a fresh list key
    if base.op in ("static",) and key.op in ("list",) and all(is_str(x) for x in key.args):
        return mk("at", base, (mk("cols", *sorted(key.args)),))
    if base.op == "static" and is_str(key):
        return at_raw(base, key)
    key = canon_key(key, base)
    # identities
    if key.op == "idx" and key.args[1] is TRUE:
        r0 = root_of(base)
        if (r0.op == "static" and r0 is key.args[0]) or (r0.op in ("dense", "activity", "active") and key.args[0].op == "static" and r0.args[1] is key.args[0].args[1]):
            return base
    if base.op == "var" and model_time(key):
        return base
    if base.op == "at" and root_of(base).op == "var" and model_time(key):
        return base
    kk_ = key_kind(key)
    if kk_ in ("c", "t"):
        ax_ = axes(base)
        if ax_ and kk_ not in ax_ and not (ax_ - {"c", "t"}):
            return base
    if base.op == "var" and key.op == "idx" and is_str(base.args[0]):
        c, _, a = base.args[0].args[0].partition("-")
        if key.args[0].op == "static" and key.args[0].args[1] is const(c):
            if key.args[1] is TRUE and a not in ("p_nom", "s_nom", "e_nom", "n_mod"):
                return base
            if NOMINAL.get(c) == a and key.args[1] is mk("at", key.args[0], (const(a + "_extendable"),)):
                return base
    if base.op == "at" and not is_positional(key):
        root, keys = base.args
        if any(is_positional(k) for k in keys) and root.op != "static":
            return mk("at", base, (key,))
        nk = []
        for k in keys:
            if k is key:
                return base
            if derived_from(key, k):
                continue
            if derived_from(k, key):
                nk.append(k)
                key = None
                nk = list(keys)
                break
            if k.op == "idx" and key.op == "idx" and k.args[0] is key.args[0]:
                m = e_and(k.args[1], key.args[1])
                key = mk("idx", k.args[0], m)
                continue
            nk.append(k)
        if key is not None:
            nk.append(key)
        if root.op == "upd2":
            st = root.args[1]
            if set(nk) == (set(st.args) if st.op == "tuple" else {st}):
                return root.args[2]
        # boolean key on static rows becomes idx
        return at_mk(root, [k for k in nk])
    if base.op in ("poly",) or base.op in ELEMENTWISE or base.op in ("shift_",):
        kk = key_kind(key)
        if kk is not None:
            r = push(I, base, key, kk[0])
            if r is not None:
                return r
        if base.op == "poly":
            d = base.args[0]
            if len(d) > 1 or (d and d[0][1] != 1):
                out = ZERO
                for m, c in d:
                    out = add(out, mul(mk("num", c), at1(I, _from_poly({m: 1}), key) if m else ONE))
                return out
        return mk("at", base, (key,))
    if is_positional(key):
        if is_time(base) and key.op == "pos":
            key = key.args[0]
        return mk("at", base, (key,))
    return mk("at", base, (key,))


def joined(I, base, col):
    """column of left.join(right, on=key)"""
    left, right = base.args[0].args[0], base.args[1][0]
    kw = dict(base.args[2])
    if set(kw) - {"on", "how"} or not is_str(kw.get("on", NONE)) or right.op != "static":
        return None
    if left.op != "at":
        return None
    cols = [k for k in left.args[1] if k.op == "list" or k.op == "cols"]
    if len(cols) != 1:
        return None
    if any(c is col for c in cols[0].args) or col.args[0] in cols[0].args:
        return at(I, at_mk(left.args[0], [k for k in left.args[1] if k is not cols[0]]), col)
    return mk("fmap", joined(I, base, kw["on"]), at(I, right, col))


def model_time(k):
    """the full time axis of the optimisation problem"""
    return k.op == "prim" and k.args[0] == "as_index" and k.args[2].op == "param" and k.args[2].args[0] in ("snapshots", "sns")


def root_of(t):
    while t.op == "at":
        t = t.args[0]
    return t


def canon_key(key, base):
    """boolean row masks over a static table become label sets"""
    r = root_of(base)
    if r.op == "static" and key.op in ("at", "eq", "ne", "lt", "le", "and", "or", "not", "isnull", "notnull", "isin", "active") and axes(key) == frozenset("c") and not has_c_sel(key) and boolean_like(key):
        return mk("idx", r, key)
    if r.op == "static" and has_c_sel(key) and axes(key) == frozenset("c") and boolean_like(key):
        st = strip_c(key, r)
        if st is not None:
            return mk("idx", r, st)
    return key


def boolean_like(t):
    if t.op == "at":
        cols = [k.args[0] for k in t.args[1] if is_str(k)]
        return any(c.endswith("extendable") or c in ("committable", "active") or "cyclic" in c or "per_period" in c for c in cols)
    return t.op in ("eq", "ne", "lt", "le", "and", "or", "not", "isnull", "notnull", "isin", "active") or t in (TRUE, FALSE)


def has_c_sel(t):
    return contains(t, lambda x: x.op == "at" and any(k.op == "idx" for k in x.args[1]) and axes(x) != E0)


def strip_c(t, r, allowed=None):
    """remove row selections idx(r, m) from a mask over r; -> mask & m"""
    masks = []
    memo = {}

    def rec(x):
        if axes(x) == E0:
            return x
        if x.op == "at":
            ks = []
            for k in x.args[1]:
                if k.op == "idx" and k.args[0] is r:
                    masks.append(k.args[1])
                elif k.op == "idx":
                    return None
                else:
                    ks.append(k)
            b = rec(x.args[0]) if x.args[0].op not in ("static", "dense", "active", "activity") else x.args[0]
            return at_mk(b, ks) if b is not None else None
        if x.op in ELEMENTWISE:
            na = [rec(a) if isinstance(a, T) else a for a in x.args]
            if any(a is None for a in na):
                return None
            return mk(x.op, *na)
        if x.op == "poly":
            out = ZERO
            for m, c in x.args[0]:
                p = mk("num", c)
                for b, e in m:
                    nb = rec(b)
                    if nb is None:
                        return None
                    p = mul(p, power(nb, const(e)) if e >= 0 else div(ONE, power(nb, const(-e))))
                out = add(out, p)
            return out
        return x

    res = rec(t)
    if res is None:
        return None
    return e_and(res, *masks)


def idx_filter(base, key):
    """idx(r,m)[key]"""
    r, m = base.args
    if key.op == "idx" and key.args[0] is r:
        return mk("idx", r, e_and(m, key.args[1]))
    if axes(key) == frozenset("c") and boolean_like(key):
        st = strip_c(key, r)
        if st is not None:
            return mk("idx", r, e_and(m, st))
    if m is TRUE and key.op in ("eq", "ne", "lt", "le", "and", "or", "not") and axes(key) is None and not has_c_sel(key):
        return mk("idx", r, key)
    return mk("at", base, (key,))


def push(I, t, key, axis):
    """distribute a selection over element-wise operations"""
    if t.op == "poly":
        for m, c in t.args[0]:
            for b, e in m:
                if axes(b) is None:
                    return None
        out = ZERO
        for m, c in t.args[0]:
            p = mk("num", c)
            for b, e in m:
                nb = at1(I, b, key) if axis in axes(b) else b
                p = mul(p, power(nb, const(e)) if e >= 0 else div(ONE, power(nb, const(-e))))
            out = add(out, p)
        return out
    if t.op in ELEMENTWISE:
        args = []
        for i, a in enumerate(t.args):
            if not isinstance(a, T) or (t.op in ("isin", "fmap") and i > 0):
                args.append(a)
                continue
            ax = axes(a)
            if ax is None:
                return None
            args.append(at1(I, a, key) if axis in ax else a)
        if t.op == "and":
            return e_and(*args)
        if t.op == "or":
            return e_or(*args)
        if t.op == "not":
            return e_not(args[0])
        if t.op in ("eq", "ne", "lt", "le"):
            return cmp(t.op, *args)
        if t.op == "pow":
            return power(*args)
        return mk(t.op, *args)
    return None


def always_nokey(t):
    """does computing the value look up a key that certainly does not exist?"""
    if t.op == "nokey":
        return True
    if t.op in ("ite", "guard", "lam", "comp", "glist", "fmap", "closure", "exc", "excval", "sumover", "misaligned"):
        return t.op == "ite" and (always_nokey(t.args[0]) or all(always_nokey(x) for x in t.args[1:]))

    def sub(a):
        return always_nokey(a) if isinstance(a, T) else any(sub(y) for y in a) if isinstance(a, tuple) else False
    return any(sub(a) for a in t.args)


def item(I, o, k):
    return at(I, o, k)


def unpack(I, v, i, n):
    def f(x):
        if x.op in ("list", "tuple") and len(x.args) == n:
            return x.args[i]
        if x.op == "elem" and x.args[0].op == "items":
            base = x.args[0].args[0]
            e = mk("elem", mk("keys", base), x.args[1])
            return e if i == 0 else at(I, base, e)
        if x.op in ("static",):
            return mk("unpack", x, i)
        return mk("at", x, (const(i),))
    return lift(f, v)


# ---------------------------------------------------------------- iteration
def iterate(I, t):
    """-> [(gate, value)] when the elements are known"""
    if t.op in ("list", "tuple", "set"):
        return [(TRUE, x) for x in t.args]
    if t.op == "dict":
        return [(TRUE, k) for k, _ in t.args[0]]
    if t.op == "glist":
        r = iterate(I, t.args[1])
        return None if r is None else [(b_and(t.args[0], g), x) for g, x in r]
    if t.op == "concat":
        out = []
        for p in t.args:
            r = iterate(I, p)
            if r is None:
                return None
            out.extend(r)
        return out
    if t.op == "subcomponents":
        out = []
        for g, v in iterate(I, t.args[1]) or []:
            rows = sub_rows(I, t.args[0], v) if net_of_sub(t.args[0]) is not None else None
            if rows is None:
                return None
            out.append((b_and(g, b_not(empty(rows))) if t.args[2] is TRUE else g, mk("scobj", t.args[0], v)))
        return out if iterate(I, t.args[1]) is not None else None
    if t.op == "components":
        out = []
        for g, v in iterate(I, t.args[1]) or []:
            if not is_str(v):
                return None
            e = truth(mk("ite", mk("empty", mk("idx", mk("static", t.args[0], v), TRUE)), TRUE, FALSE))
            out.append((b_and(g, b_not(e)) if t.args[2] is TRUE else g, mk("cobj", t.args[0], v)))
        return out if iterate(I, t.args[1]) is not None else None
    if t.op == "ite" and nleaves(t) <= 8:
        out = []
        for g, v in leaves(t):
            r = iterate(I, v)
            if r is None:
                return None
            out.extend((b_and(g, gg), x) for gg, x in r)
        # merge equal consecutive values
        return out
    return None


def split_iter(I, t):
    if t.op == "concat":
        return [(TRUE, p) for p in t.args]
    if t.op == "glist":
        return [(t.args[0], t.args[1])]
    return None


def canon_iter(I, t):
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "keys":
        return t.args[0].args[0]
    if t.op == "keys":
        return t.args[0]
    if t.op == "items" and t.args[0].op == "dictof" and t.args[0].args[0].op == "comp":
        # a table picked entry by entry from another one: its entries in order
        c = t.args[0].args[0]
        body = c.args[2].args[0] if c.args[2].op == "list" and len(c.args[2].args) == 1 else NONE
        own = c.args[1].args[0] if c.args[1].op == "items" else c.args[1] if c.args[1].op == "dynamic" else NONE
        if body.op == "tuple" and len(body.args) == 2 and body.args[0].op == "elem" and body.args[0].args[0] is own:
            return c
    return t


def elem_value(I, it, elem):
    if it.op == "comp" and it.args[3] is TRUE and it.args[2].op == "list" and len(it.args[2].args) == 1:
        # element of a comprehension: body instantiated at its element
        src, body = it.args[1], it.args[2].args[0]
        inner = elem_value(I, src, mk("elem", src, 0))
        return body
    if it.op == "items":
        base = it.args[0]
        e = mk("elem", base, elem.args[1])
        return mk("tuple", e, at(I, base, e))
    if it.op == "cvalues":
        return at(I, it.args[0], mk("elem", it.args[0], elem.args[1]))
    if it.op == "enumerate":
        return mk("tuple", mk("pos_of", elem), elem_value(I, it.args[0], mk("elem", it.args[0], elem.args[1])))
    if it.op == "zip":
        return mk("tuple", *[elem_value(I, x, mk("elem", x, elem.args[1])) for x in it.args])
    if it.op == "product":
        return mk("tuple", *[elem_value(I, x, mk("elem", x, elem.args[1])) for x in it.args])
    if it.op == "iterrows":
        base = it.args[0]
        nm = mk("elem", attr(I, base, "index"), elem.args[1])
        return mk("tuple", nm, at(I, base, nm))
    if it.op == "groupby":
        return mk("tuple", mk("gkey", elem), mk("group", elem))
    return elem


def open_iter(I, it):
    """-> (source, element, value of the loop target, condition): a comprehension is iterated through its source"""
    if it.op == "comp" and it.args[2].op == "list" and len(it.args[2].args) == 1:
        src, body, cond = it.args[1], it.args[2].args[0], it.args[3]
        d0 = min((x.args[1] for y in (body, cond) for x in walk(y) if x.op == "elem" and x.args[0] is src), default=0)
        depth = sum(1 for x in I.loops if x is src)
        e = mk("elem", src, depth)
        if d0 != depth:
            m = {id(mk("elem", src, d0)): e}
            body, cond = substitute(body, m), substitute(cond, m)
        if src.op == "items" and depth:
            m = {id(mk("elem", src.args[0], 0)): mk("elem", src.args[0], depth)}
            body, cond = substitute(body, m), substitute(cond, m)
        return src, e, body, cond
    if it.op == "enumerate":
        # counting the elements is going through the elements
        src, e, value, cond = open_iter(I, it.args[0])
        if cond is TRUE:
            return src, e, mk("tuple", mk("pos_of", e), value), cond
    if it.op in ("items", "cvalues") and it.args[0].op == "dynamic":
        # the tables, with or without their names
        src = it.args[0]
        e = mk("elem", src, sum(1 for x in I.loops if x is src))
        return src, e, at(I, src, e) if it.op == "cvalues" else mk("tuple", e, at(I, src, e)), TRUE
    depth = sum(1 for x in I.loops if x is it)
    e = mk("elem", it, depth)
    return it, e, elem_value(I, it, e), TRUE


def mentions_elem(t, elem):
    return elem is not None and contains(t, lambda x: x is elem)


def mkcomp(it, body, cond, elem):
    if body.op == "list" and not body.args:
        return body
    if body.op == "glist":
        return mkcomp(it, body.args[1], b_and(cond, body.args[0]), elem)
    if cond is FALSE:
        return mk("list")
    if cond is TRUE and body.op == "list" and len(body.args) == 1 and body.args[0] is elem:
        return it
    return mk("comp", "list", it, body, cond)


def summarise(I, it, lv, init, body, all_lvs):
    if body is lv:
        return init
    # appended lists
    tail = list_tail(body, lv)
    if tail is not None and not contains(tail, lambda x: x is lv):
        return concat([init, mkcomp(it, tail, TRUE, None)])
    if not contains(body, lambda x: x is lv):
        return mk("last", it, body, init)
    # flags set to a constant once a condition holds
    if body.op == "ite":
        other = {v for _, v in leaves(body)} - {lv}
        if len(other) == 1 and next(iter(other)).op == "const":
            k = next(iter(other))
            g = FALSE
            for h, v in leaves(body):
                if v is k:
                    g = b_or(g, h)
            if not contains(g, lambda x: x is lv):
                return ite(mk("ite", mk("any", it, g), TRUE, FALSE), k, init)
    # sums
    if body.op == "poly" or body.op == "ite":
        d = sub(body, lv) if body.op == "poly" else lift(lambda b: sub(b, lv), body)
        if not contains(d, lambda x: x is lv):
            return add(init, lin("sumover", d, it))
    if body.op == "ite":
        ups = [x for _, x in leaves(body)]
        if all(x.op == "upd" and x.args[0] is lv and x.args[1] is ups[0].args[1] for x in ups):
            body = mk("upd", lv, ups[0].args[1], lift(lambda b: b.args[2], body))
    if body.op == "upd" and body.args[0] is lv and not contains(mk("t", body.args[1], body.args[2]), lambda x: x is lv):
        return mk("updover", init, it, body.args[1], body.args[2])
    return mk("fold", it, init, body)


def list_tail(body, lv):
    if body is lv:
        return mk("list")
    if body.op == "concat" and body.args[0] is lv:
        return concat(list(body.args[1:]))
    if body.op == "ite":
        c, a, b = body.args
        x, y = list_tail(a, lv), list_tail(b, lv)
        if x is None or y is None:
            return None
        g = mk("ite", c, TRUE, FALSE)
        return concat([guard_list(g, x), guard_list(b_not(g), y)])
    if body.op == "poly":
        return None
    return None


def guard_list(g, x):
    if g is TRUE or (x.op == "list" and not x.args):
        return x
    if g is FALSE:
        return mk("list")
    if x.op == "concat":
        return concat([guard_list(g, p) for p in x.args])
    if x.op == "glist":
        return guard_list(b_and(g, x.args[0]), x.args[1])
    if x.op == "list" and len(x.args) > 1:
        return concat([mk("glist", g, mk("list", y)) for y in x.args])
    return mk("glist", g, x)


def lparts(x):
    if x.op == "concat":
        out = []
        for p in x.args:
            out.extend(lparts(p))
        return out
    if x.op == "list":
        return [mk("list", y) for y in x.args]
    return [x]


def merge_values(c, a, b):
    """control-flow merge; lists keep a common prefix and guard the differing tails"""
    if a.op in ("list", "concat", "glist", "comp") and b.op in ("list", "concat", "glist", "comp"):
        pa, pb = lparts(a), lparts(b)
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        if i > 0 or not pa or not pb:
            return concat(pa[:i] + [guard_list(c, p) for p in pa[i:]] + [guard_list(b_not(c), p) for p in pb[i:]])
    if a.op == "dict" and b.op == "dict" and a is not b and a.args[0] and [k for k, _ in a.args[0]] == [k for k, _ in b.args[0]]:
        d = dict(b.args[0])
        return mkdict({k: merge_values(c, v, d[k]) for k, v in a.args[0]})
    return ite(c, a, b)


# ---------------------------------------------------------------- linear operators
def lin(op, x, *rest):
    """linear operator: distributes over sums and numeric factors"""
    def f(x):
        if x.op == "num" and x.args[0] == 0:
            return ZERO
        if x.op == "poly":
            out = ZERO
            if op == "sum" and len(x.args[0]) > 1 and any(m == () for m, c in x.args[0]):
                return mk(op, x, *rest)     # as many times as there are labels
            for m, c in x.args[0]:
                body = _from_poly({m: 1})
                out = add(out, mul(mk("num", c), mk(op, body, *rest)))
            return out
        return mk(op, x, *rest)
    if x.op == "ite" and nleaves(x) <= 64:
        return lift(f, x)
    return f(x)


def guard_num(g, x):
    """Iverson-guarded number"""
    if g is TRUE:
        return x
    if g is FALSE:
        return ZERO
    return lin("guard", x, g)


def lsum(I, t):
    """sum of the elements of a list term"""
    if t.op in ("list", "tuple", "set"):
        out = ZERO
        for x in t.args:
            out = add(out, as_expr(I, x))
        return out
    if t.op == "concat":
        out = ZERO
        for p in t.args:
            out = add(out, lsum(I, p))
        return out
    if t.op == "glist":
        return guard_num(t.args[0], lsum(I, t.args[1]))
    if t.op == "comp":
        inner = lsum(I, t.args[2])
        return lin("sumover", guard_num(t.args[3], inner), t.args[1])
    if t.op == "ite" and nleaves(t) <= MAX_LEAVES:
        return lift(lambda x: lsum(I, x), t)
    return lin("sum", t, ())


def as_expr(I, x):
    """linopy expression from tuples"""
    if x.op == "tuple" and len(x.args) == 2 and x.args[0].op != "tuple":
        return mul(x.args[0], x.args[1])
    if x.op in ("tuple", "list") and x.args and all(y.op == "tuple" and len(y.args) == 2 for y in x.args):
        out = ZERO
        for y in x.args:
            out = add(out, mul(y.args[0], y.args[1]))
        return out
    if x.op in ("concat", "glist"):
        return lsum(I, x)
    if x.op == "ite" and nleaves(x) <= MAX_LEAVES:
        return lift(lambda y: as_expr(I, y), x)
    return x


def has_var(t):
    return contains(t, lambda x: x.op == "var" or (x.op == "attr" and x.args[0].op == "model" and x.args[1] == "objective"))


def mk_all(x):
    def f(x):
        if x in (TRUE, FALSE):
            return x
        if x.op in ("all",):
            return x
        if x.op == "and":
            return e_and(*[mk_all(y) for y in x.args])
        if x.op == "not" and x.args[0].op == "any":
            return x
        return mk("all", x)
    return lift(f, x)


def mk_any(x):
    return e_not(mk_all(e_not(x)))


def ind(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "not":
        return sub(ONE, ind(c.args[0]))
    if c.op == "ne":
        return sub(ONE, ind(mk("eq", *c.args)))
    if c.op == "le":
        return sub(ONE, ind(cmp("lt", c.args[1], c.args[0])))
    if c.op == "notnull":
        return sub(ONE, ind(mk("isnull", *c.args)))
    return mk("ind", c)


def boolish(t):
    return t in (TRUE, FALSE) or t.op in ("and", "or", "not", "eq", "ne", "lt", "le", "isnull", "notnull", "isin", "activity", "active") or (
        t.op == "at" and (boolean_like(t) or root_of(t).op in ("activity", "active")))


def where(x, c, other):
    def f(x, c, other):
        if c is TRUE:
            return x
        if c is FALSE:
            return other
        if x is other:
            return x
        if other in (TRUE, FALSE) and boolish(x) or x in (TRUE, FALSE) and boolish(other):
            return e_or(e_and(c, x), e_and(e_not(c), other)) if not (other in (TRUE, FALSE) or x in (TRUE, FALSE)) else (
                e_and(c, x) if other is FALSE else e_or(e_not(c), x) if other is TRUE else
                e_or(c, other) if x is TRUE else e_and(e_not(c), other))
        if other.op == "ext" or x.op == "ext" or other.op == "const" or x.op == "const" or boolish(x) or boolish(other):
            if c.op in ("not", "ne", "le", "notnull"):
                return mk("where", e_not(c), other, x)
            return mk("where", c, x, other)
        return add(other, mul(ind(c), sub(x, other)))
    return lift(f, x, c, other)


# ---------------------------------------------------------------- operators
def unfull(x):
    def f(y):
        if y.op == "full":
            return y.args[0]
        if y.op == "at" and y.args[0].op == "full":
            return y.args[0].args[0]
        return y
    return lift(f, x) if x.op in ("ite", "full", "at") else x


def set_members(I, t):
    """[(condition, element)] of a set of known labels, some of which may be missing"""
    if t.op == "set":
        return [(TRUE, x) for x in t.args] if all(is_const(x) for x in t.args) else None
    if t.op == "glist" and t.args[1].op == "set" or t.op == "concat" and all(p.op == "set" or p.op == "glist" and p.args[1].op == "set" for p in t.args):
        r = iterate(I, t)
        return r if r is not None and all(is_const(x) for _, x in r) else None
    return None


def in_order(items, kind="list"):
    """gated elements as a list"""
    out, run = [], []
    for g, x in items:
        if g is FALSE:
            continue
        if g is TRUE:
            run.append(x)
            continue
        if run:
            out.append(mk(kind, *run))
            run = []
        out.append(mk("glist", g, mk(kind, x)))
    if run or not out:
        out.append(mk(kind, *run))
    return out[0] if len(out) == 1 else mk("concat", *out)


def setalg(I, op, a, b):
    """a - b, a & b, a | b of sets of known labels"""
    if op == "BitAnd" and set_members(I, a) is None:
        a, b = b, a
    m = set_members(I, a)
    if m is None or len(m) > 40:
        return None
    if op == "BitOr":
        m2 = set_members(I, b)
        if m2 is None:
            return None
        d = {}
        for g, x in m + m2:
            d[x] = b_or(d.get(x, FALSE), g)
        m = [(g, x) for x, g in d.items()]
    else:
        def inside(x):
            return truth(contains_term(I, x, b))
        m = [(b_and(g, b_not(inside(x)) if op == "Sub" else inside(x)), x) for g, x in m]
    m.sort(key=lambda gx: gx[1].key)
    return in_order(sorted(m, key=lambda gx: gx[0] is not TRUE), "set")


def binop(I, op, a, b):
    a, b = unfull(a), unfull(b)
    if op in ("Sub", "BitAnd", "BitOr") and ("set" in (a.op, b.op) or set_members(I, a) is not None or set_members(I, b) is not None) and not (
            a.op in ("ite",) or b.op in ("ite",)):
        r = setalg(I, op, a, b)
        if r is not None:
            return r
    if a.op == "model_" or b.op == "opaque_":
        pass
    if op == "Add":
        if is_index_like(a) or is_index_like(b):
            return mk("padd", a, b) if not (is_num(a) or is_num(b)) else add(a, b)
        if a.op in LISTOPS and b.op in LISTOPS and not (a.op == "set" or b.op == "set"):
            return concat([a, b]) if not (a.op == "tuple" and b.op == "tuple") else mk("tuple", *(a.args + b.args))
        if a.op in LISTOPS or b.op in LISTOPS:
            if strlike(a) or strlike(b):
                return add(a, b)
            return concat([a, b])
        if strlike(a) or strlike(b):
            return cat([a, b])
        return add(a, b)
    if op == "Sub":
        if a.op == "set" and b.op == "set" and all(is_const(x) for x in a.args + b.args):
            return mkset([x for x in a.args if x not in b.args])
        if a.op == "set" or b.op == "set" or a.op == "setof" or b.op == "setof":
            return mk("setdiff", a, b)
        return sub(a, b)
    if op == "Mult":
        if b.op in ("list",) and is_num(a):
            a, b = b, a
        if a.op == "list" and is_num(b):
            return mk("list", *(a.args * int(b.args[0])))
        if a.op in LISTOPS or b.op in LISTOPS:
            return mk("repeat", *sorted((a, b)))
        return mul(a, b)
    if op == "Div":
        return div(a, b)
    if op == "FloorDiv":
        if is_num(a) and is_num(b) and b.args[0] != 0:
            return const(a.args[0] // b.args[0])
        return mk("floordiv", a, b)
    if op == "Mod":
        if strlike(a):
            r = str_percent(a, b)
            return r if r is not None else mk("strfmt", a, b)
        if is_num(a) and is_num(b) and b.args[0] != 0:
            return const(a.args[0] % b.args[0])
        return mk("mod", a, b)
    if op == "Pow":
        return power(a, b)
    if op == "MatMult":
        return matmul(a, b)
    if op == "BitAnd":
        if a.op == "set" and b.op == "set":
            return mkset([x for x in a.args if x in b.args])
        return e_and(a, b)
    if op == "BitOr":
        if a.op == "set" and b.op == "set":
            return mkset(a.args + b.args)
        if a.op == "dict" and b.op == "dict":
            d = dict(a.args[0])
            d.update(dict(b.args[0]))
            return mkdict(d)
        if any(x.op in ("dict", "dictmerge") or x.op == "updover" and x.args[0].op in ("dict", "dictmerge") for x in (a, b)):
            return dictmerge([a, b])
        return e_or(a, b)
    if op == "BitXor":
        return mk("xor", *sorted((a, b)))
    return mk("op" + op, a, b)


def matmul(a, b):
    return mk("matmul", a, b)


def strlike(t):
    return is_str(t) or t.op == "cat"


def is_index_like(t):
    return t.op in ("idx",) or (t.op == "attr" and t.args[1] in ("index", "columns"))


CMPS = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}


def compare(I, opname, a, b):
    return lift(lambda x, y: compare1(I, opname, x, y), a, b)


def contype(sense, a, b):
    return mk("con", sense, sub(a, b))


def compare1(I, opname, a, b):
    if opname in ("Is", "IsNot"):
        r = None
        if a is b:
            r = TRUE
        elif is_const(a) and is_const(b):
            r = FALSE
        elif (b is NONE and never_none(I, a)) or (a is NONE and never_none(I, b)):
            r = FALSE
        elif any(x.op == "const" and x.args[0] in (None, True, False) and pytype(y) not in (None, "builtins.bool") for x, y in ((a, b), (b, a))):
            r = FALSE
        if r is None:
            one = not any(is_const(x) for x in (a, b)) and any(x.op == "net" or I.typeof(x) == "Network" for x in (a, b))
            r = mk("same" if one else "eq", *sorted((a, b)))     # networks with the same content are equal
        return r if opname == "Is" else (e_not(r))
    if opname in ("In", "NotIn"):
        r = contains_term(I, a, b)
        return r if opname == "In" else b_not(truth(r)) if r.op in ("ite",) or r in (TRUE, FALSE) else e_not(r)
    if opname in ("LtE", "GtE", "Eq") and (has_var(a) or has_var(b)) and not (a.op in ("at_",) ):
        s = {"LtE": "<=", "GtE": ">=", "Eq": "="}[opname]
        if linear_expr(a) or linear_expr(b):
            if not has_var(a):
                a, b = b, a
                s = {"<=": ">=", ">=": "<=", "=": "="}[s]
            return contype(s, a, b)
    if opname in ("Eq", "NotEq"):
        if a.op in ("list", "tuple", "set") and b.op in ("list", "tuple", "set") and all(is_const(x) for x in a.args + b.args):
            return const((a.args == b.args) == (opname == "Eq"))
    if a.op == "set" and b.op == "set" and opname in ("LtE", "GtE") and all(is_const(x) for x in a.args + b.args):
        return const(set(a.args) <= set(b.args) if opname == "LtE" else set(a.args) >= set(b.args))
    return cmp(CMPS[opname], a, b)


def linear_expr(t):
    """term is a linopy variable/expression (not data derived from it)"""
    if t.op == "var" or (t.op == "attr" and t.args[0].op == "model" and t.args[1] == "objective"):
        return True
    if t.op == "attr" and t.args[1] == "expression":
        return linear_expr(t.args[0])
    if t.op == "ite":
        return linear_expr(t.args[1]) and linear_expr(t.args[2])
    if t.op == "poly":
        return any(linear_expr(b) for m, _ in t.args[0] for b, _ in m)
    if t.op in ("at", "sum", "guard", "sumover", "shift", "roll", "gsum", "where", "ffill", "bfill", "cumsum", "rollsum"):
        return linear_expr(t.args[0])
    return False


def never_none(I, t):
    return t.op in ("prim", "difference", "poly", "num", "list", "tuple", "dict", "set", "concat", "cat", "static", "dynamic", "net", "model", "closure", "fn", "idx",
                    "dense", "activity", "at_", "comp", "upd", "con", "var", "and", "or", "not") or (t.op == "const" and t.args[0] is not None) or (
        t.op == "at" and root_of(t).op in ("activity", "dense", "static")) or (t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("pandas.DataFrame", "pandas.Series", "pandas.read_csv", "pandas.concat", "pandas.Index"))


def is_mask(k):
    """a selection of rows by condition"""
    return is_bool(k) or k.op in ("idx", "opBitOr", "opBitAnd") or k.op == "call" and k.args[0] is mk("ext", "pandas.Series") and k.args[1][:1] == (TRUE,)


def contains_term(I, x, c):
    if c.op == "ite" and nleaves(c) <= MAX_LEAVES:
        return lift(lambda y: contains_term(I, x, y), c)
    if c.op in ("list", "tuple", "set"):
        if is_const(x) and all(is_const(y) for y in c.args):
            return const(any(y is x for y in c.args))
        if any(y is x for y in c.args):
            return TRUE
        r = FALSE
        for y in c.args:
            r = b_or(r, truth(cmp("eq", x, y)))
        return r
    if c.op == "dict":
        ks = [k for k, _ in c.args[0]]
        if any(k is x for k in ks):
            return TRUE
        if is_const(x) and all(is_const(k) for k in ks):
            return FALSE
        return mk("in", x, mk("set", *sorted(ks)))
    if c.op == "concat":
        r = FALSE
        for p in c.args:
            r = b_or(r, truth(contains_term(I, x, p)))
        return r
    if c.op == "glist":
        return b_and(c.args[0], truth(contains_term(I, x, c.args[1])))
    if c.op == "setof":
        return contains_term(I, x, c.args[0])
    if c.op == "or" and any(y.op in ("set", "setof", "setunion") for y in c.args):
        return b_or(*[truth(contains_term(I, x, y)) for y in c.args])
    if c.op == "setunion":
        return b_or(truth(contains_term(I, x, c.args[0])), truth(contains_term(I, x, c.args[1])))
    if is_str(c) and is_str(x):
        return const(x.args[0] in c.args[0])
    if c.op == "attr" and c.args[1] == "columns":
        # the columns do not depend on which rows are looked at
        o = c.args[0]
        while True:
            if o.op == "ite":
                return contains_term(I, x, lift(lambda y: mk("attr", y, "columns"), o))
            if o.op == "at" and len(o.args[1]) == 1 and is_mask(o.args[1][0]):
                o = o.args[0]
            elif is_str(x) and o.op == "call" and o.args[0].op == "attr" and o.args[0].args[1] == "assign" and not o.args[1]:
                if x.args[0] in dict(o.args[2]):
                    return TRUE
                o = o.args[0].args[0]
            else:
                break
        c = mk("attr", o, "columns")
    if c.op == "attr" and c.args[1] == "columns" and c.args[0].op == "static":
        c = c.args[0]
    if c.op == "static" and is_str(c.args[1]) and is_str(x):
        a = I.repo.attrs(c.args[1].args[0]).get(x.args[0])
        if (c, x) in I.heap:
            return TRUE
        if a is not None and a["type"].strip() != "series":
            return TRUE
        if a is None and x.args[0] in known_attrs(I):
            return FALSE
    if c.op in ("dynamic",) and is_str(c.args[1]) and is_str(x):
        a = I.repo.attrs(c.args[1].args[0]).get(x.args[0])
        if (c, x) in I.heap:
            return TRUE
        if a is not None and "series" in a["type"]:
            return TRUE
        if a is not None or x.args[0] in known_attrs(I):
            return FALSE
    if c.op == "call" and c.args[0].op == "attr" and c.args[0].args[1] == "keys":
        return contains_term(I, x, c.args[0].args[0])
    return mk("in", x, c)


def known_attrs(I):
    """attribute names of the declared component tables (assumption: a declared attribute name is only a
    column of the components that declare it)"""
    if not hasattr(I, "_known_attrs"):
        I._known_attrs = {a for c in I.repo.components() for a in I.repo.attrs(c)}
    return I._known_attrs


# ---------------------------------------------------------------- attributes
COMPSET_TYPES = {
    "passive_branch_components": ("passive_branch",),
    "controllable_branch_components": ("controllable_branch",),
    "branch_components": ("passive_branch", "controllable_branch"),
    "passive_one_port_components": ("passive_one_port",),
    "controllable_one_port_components": ("controllable_one_port",),
    "one_port_components": ("passive_one_port", "controllable_one_port"),
    "standard_type_components": ("standard_type",),
}


def comp_set(I, name):
    rows = I.repo.components()
    if name == "all_components":
        return mkset([const(c) for c in rows if c != "Network"])
    cats = COMPSET_TYPES[name]
    return mkset([const(c) for c, r in rows.items() if (r.get("category") or "").strip() in cats])


def comp_by_key(I, net, key):
    if is_str(key):
        k = key.args[0]
        ln = list_names(I)
        if k in ln:
            return mk("cobj", net, const(ln[k]))
        if k in I.repo.components():
            return mk("cobj", net, key)
    return mk("cobj", net, key)


def net_of_sub(o):
    if o.op == "sub":
        return o.args[0]
    if o.op == "elem":
        return o.args[0].args[0].args[0]
    if o.op == "at" and o.args[0].op == "static":
        return o.args[0].args[0]
    return None


def sub_comp(I, sub, key):
    if is_str(key):
        k = list_names(I).get(key.args[0], key.args[0])
        if k in I.repo.components():
            key = const(k)
    return mk("scobj", sub, key)


def sub_rows(I, sub, c):
    """the rows of a component table which belong to a sub-network (lemma: SubNetwork.components)"""
    net = net_of_sub(sub)
    if not is_str(c):
        return None
    t = mk("static", net, c)
    own = lambda tb: cmp("eq", at(I, tb, const("sub_network")), attr(I, sub, "name"))
    if c.args[0] == "Bus" or c in comp_set(I, "passive_branch_components").args:
        return mk("idx", t, own(t))
    if c in comp_set(I, "one_port_components").args:
        b = mk("static", net, const("Bus"))
        return mk("idx", t, mk_isin(at(I, t, const("bus")), mk("idx", b, own(b))))
    return None


def sub_attr(I, o, name):
    sub, c = o.args
    net = net_of_sub(sub)
    if name == "name":
        return c
    if name in ("static", "df"):
        rows = sub_rows(I, sub, c)
        if rows is not None:
            return at(I, mk("static", net, c), rows)
        return mk("substatic", sub, c)
    if name in ("dynamic", "pnl"):
        return mk("subdyn", sub, c)
    if name in ("n", "n_save"):
        return net
    if name in ("list_name", "attrs", "defaults", "nominal_attr"):
        return attr(I, mk("cobj", net, c), name)
    return None


DECLARED = {"type", "default", "typ", "dtype", "static", "varying", "status", "unit"}    # columns of the tables that declare attributes


def attr(I, o, name, node=None):
    if o.op == "ite":
        if nleaves(o) > MAX_LEAVES:
            return mk("attr", o, name)
        return lift(lambda x: attr(I, x, name, node), o)
    if name in ("real", "imag") and o.op in ("poly", "conj", "exp", "updover", "upd", "at", "mul", "matmul", "pow", "call"):
        return mk(name, o)
    if o.op == "ext":
        d = o.args[0]
        if d.startswith("builtins.") and name in ("fromkeys",):
            return mk("ext", d + "." + name)
        return external(d + "." + name)
    if o.op == "mod":
        r = I.repo.resolve(o.args[0] + "." + name)
        return I.resolved(r, name)
    if o.op == "cls":
        x = class_member(I, o.args[0], name)
        if x is not None:
            return x
        return mk("attr", o, name)
    if name in DECLARED and pytype(o) == "pandas.DataFrame":
        return item(I, o, const(name))
    # stored earlier in this analysis
    if o.op == "new":
        r = instance_member(I, o, name, node)
        if r is not None:
            return r
    if o.op in ("net", "cobj", "param", "attr", "at", "sub", "elem"):
        obj, key = canon_attr_store(I, o, name)
        h = I.heap.get((obj, key))
        if h is not None:
            return h
    if o.op == "net" or I.typeof(o) == "Network":
        r = net_attr(I, o, name, node)
        if r is not None:
            return r
    if o.op == "cobj":
        if name in ("static", "df"):
            return mk("static", *o.args)
        if name in ("dynamic", "pnl"):
            return mk("dynamic", *o.args)
        if name == "name":
            return o.args[1]
        if name == "list_name" and is_str(o.args[1]) and o.args[1].args[0] in I.repo.components():
            return const(I.repo.components()[o.args[1].args[0]]["list_name"])
        if name in ("attrs", "defaults"):
            return mk("cattrs", *o.args)
        if name == "n" or name == "n_save":
            return o.args[0]
        if name == "nominal_attr" and is_str(o.args[1]) and o.args[1].args[0] in NOMINAL:
            pass
        r = typed_member(I, o, "Components", name, node)
        if r is not None:
            return r
        return mk("attr", o, name)
    if o.op == "compstore":
        if name in list_names(I):
            return comp_by_key(I, o.args[0], const(name))
        return mk("attr", o, name)
    if o.op == "model":
        if name == "variables":
            return mk("vars")
        if name == "constraints":
            return mk("cons")
        return mk("attr", o, name)
    if o.op in ("vars",) and name not in DATA_METHODS:
        return mkvar(const(name))
    if o.op == "csv" or (o.op == "at" and o.args[0].op == "csv"):
        return mk("attr", o, name)
    if o.op == "nokey":
        return o
    if o.op == "super" and len(o.args) > 1 and o.args[1]:
        r = I.repo.resolve(o.args[1])
        if r[0] == "cls" and not r[2].bases:
            # nothing but the universal base class is above
            return mk("bound_method", o.args[0], mk("ext", "builtins.object." + name))
        for b in r[2].bases if r[0] == "cls" else ():
            rb = I.repo.lookup_name(r[1], dotted_name(b) or "")
            if rb and rb[0] == "cls" and I.repo.class_lookup(rb[1], rb[2], name):
                f = class_member(I, f"{rb[1].name}.{rb[2].name}", name)
                return mk("bound_method", o.args[0], f.args[0]) if f is not None and f.op == "fn" else mk("attr", o, name)
    if o.op == "csvcol":
        return mk("list", *o.args) if name == "index" else mk("attr", o, name)
    if o.op == "csvrows":
        if name == "index":
            return mk("list", *[mk("tuple", *[const(v) for v in r]) for r in o.args[0]])
        return mk("attr", o, name)
    if o.op == "subcompstore":
        return sub_comp(I, o.args[0], const(name))
    if o.op == "scobj":
        r = sub_attr(I, o, name)
        if r is not None:
            return r
    if (o.args[0] if o.op == "at" else o).op == "prim" and (o.args[0] if o.op == "at" else o).args[0] == "branches" and name not in DATA_METHODS:
        return at(I, o, const(name))
    ty = I.typeof(o)
    if ty == "SubNetwork":
        net = net_of_sub(o)
        if net is not None:
            if name in ("n", "network"):
                return net
            if name in ("components", "c") and "pypsa.networks.SubNetwork.components" in I.prims:
                return mk("subcompstore", o)
            if name in ("snapshots", "snapshot_weightings", "investment_periods", "investment_period_weightings"):
                return attr(I, net, name, node)
        r = typed_member(I, o, "SubNetwork", name, node)
        if r is not None:
            return r
        if name in ("n", "network") and o.op in ("elem", "param"):
            pass
        return mk("attr", o, name)
    if ty and ty not in ("Network", "Components", "DataFrame", "Series", "Index"):
        r = typed_member(I, o, ty, name, node)
        if r is not None:
            return r
    if name in ("values", "data") and o.op in ("at", "poly", "static", "dense", "activity", "active", "and", "or", "not", "eq", "ne", "lt", "le", "idx", "where"):
        return o
    if name == "T":
        return transpose(o)
    if name == "index":
        return index_of(I, o)
    if name == "columns":
        return columns_of(I, o)
    if name == "empty":
        return empty(o)
    if name == "size":
        return mk("len", emptiness_key(o))
    if name == "shape":
        return mk("shape", o)
    if name in ("loc", "at", "iloc", "iat", "sel"):
        return mk("attr", o, name)
    if name == "ctype" and o.op == "cobj":
        return mk("attr", o, name)
    if is_tabular(o) and (name not in DATA_METHODS or (name in ("sign", "type") and root_of(o).op in ("static", "dynamic"))
                           or (name in ("objective", "years", "stores", "generators") and root_of(o).op == "attr")):
        return at(I, o, const(name))
    if o.op == "attr" and o.args[1] in ("static", "df") and name not in DATA_METHODS and name in known_attrs(I):
        return at(I, o, const(name))
    if name in ("snapshot", "timestep") and o.op in ("call", "upd", "updover", "ite", "at"):
        return at(I, o, const(name))      # columns of a table read from a file
    return mk("attr", o, name)


def is_tabular(o):
    r = root_of(o)
    return r.op in ("static", "dynamic", "group") or (r.op == "attr" and r.args[1] in (
        "snapshot_weightings", "_snapshot_weightings", "investment_period_weightings", "_investment_period_weightings")) or (
        r.op == "attr" and r.args[1] in ("static", "df") and r.args[0].op == "elem") or (
        r.op == "upd" and is_tabular(r.args[0])) or r.op in ("last_",)


def transpose(o):
    if o.op == "transpose":
        return o.args[0]
    if o.op in ("dense", "activity", "poly") or axes(o) is not None:
        return o
    return mk("transpose", o)


def index_of(I, o):
    if o.op == "static":
        return mk("idx", o, TRUE)
    if o.op == "idx":
        return o
    if o.op == "at":
        root, keys = o.args
        r0 = root_of(o)
        a = axes(o)
        if root.op == "static":
            ii = [k for k in keys if k.op == "idx" and k.args[0] is root]
            if len(ii) == 1:
                return ii[0]
            if not any(k.op not in ("const", "cols", "cat") for k in keys):
                return mk("idx", root, TRUE)
        if root.op in ("activity", "dense"):
            tk = [k for k in keys if key_kind(k) == "t"]
            if len(tk) == 1:
                return tk[0]
        if a == frozenset("c"):
            ii = [k for k in keys if k.op == "idx"]
            if len(ii) == 1:
                return ii[0]
        if r0.op == "csv":
            return mk("attr", o, "index")
    if o.op in ("poly",) or o.op in ELEMENTWISE:
        for x in subterms(o):
            a = axes(x)
            if a is not None and "t" in a:
                r = index_of(I, x)
                if is_time(r):
                    return r
        for x in subterms(o):
            if axes(x) == frozenset("c"):
                return index_of(I, x)
    if o.op in ("active",) and is_str(o.args[1]):
        return mk("idx", mk("static", o.args[0], o.args[1]), TRUE)
    if o.op == "call" and o.args[0].op == "ext" and o.args[0].args[0] == "pandas.DataFrame":
        kw = dict(o.args[2])
        if "index" in kw:
            return kw["index"]
        if len(o.args[1]) > 1:
            return o.args[1][1]
    if o.op == "upd":
        return index_of(I, o.args[0])
    return mk("attr", o, "index")


def columns_of(I, o):
    if o.op == "at":
        root, keys = o.args
        if root.op in ("activity", "dense", "dynamic"):
            ii = [k for k in keys if k.op == "idx"]
            if len(ii) == 1:
                return ii[0]
            if root.op in ("activity", "dense") and is_str(root.args[1]) and all(key_kind(k) == "t" for k in keys):
                return mk("idx", mk("static", root.args[0], root.args[1]), TRUE)
    if o.op in ("activity", "dense") and is_str(o.args[1]):
        return mk("idx", mk("static", o.args[0], o.args[1]), TRUE)
    if o.op == "at" and root_of(o).op in ("dense", "activity"):
        ks = [k for k in o.args[1]]
        return mk("columns", at_mk(o.args[0], [k for k in ks if True]))
    if o.op in ("poly",):
        for x in subterms(o):
            if x.op in ("at", "dense", "activity") and (axes(x) is None or "c" in axes(x)) and root_of(x).op in ("dense", "activity", "dynamic"):
                return columns_of(I, x)
    if o.op == "upd":
        return columns_of(I, o.args[0])
    return mk("attr", o, "columns")


def net_attr(I, o, name, node):
    ln = list_names(I)
    if name in ln:
        return mk("static", o, const(ln[name]))
    if name.endswith("_t") and name[:-2] in ln:
        return mk("dynamic", o, const(ln[name[:-2]]))
    if name in ("components", "c"):
        return mk("compstore", o)
    if name in ("static", "df", "dynamic", "pnl", "component"):
        return mk("netfn", o, name)
    if name in COMPSET_TYPES or name == "all_components":
        return comp_set(I, name)
    if name in ("model", "_model"):
        return mk("model", o)
    if name == "__class__":
        return mk("cls", "pypsa.networks.Network")
    if name in ("snapshots", "snapshot_weightings", "investment_periods", "investment_period_weightings", "_meta", "meta",
                "sub_networks", "is_solved", "has_scenarios", "periods", "timesteps", "investment_period_weightings",
                "has_investment_periods", "has_periods"):
        if getattr(I, "inline_props", None) and name in I.inline_props:
            return typed_member(I, o, "Network", name, node)
        return mk("attr", o, name)
    r = typed_member(I, o, "Network", name, node)
    return r if r is not None else net_instance(I, o, name)


def init_assignments(I, mod, cnode):
    """{attribute: value expression} assigned once and unconditionally by the constructor, with its module and function"""
    x = I.repo.class_lookup(mod, cnode, "__init__")
    if not x or x[-1][0] != "def":
        return {}, None, None
    kind, mm, nd = x[-1]
    cache = I.repo.__dict__.setdefault("_init_cache", {})
    if id(nd) not in cache:
        out, many = {}, set()
        me = nd.args.args[0].arg if nd.args.args else "self"
        top = {id(st) for st in nd.body}
        for st in ast.walk(nd):
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        if t.attr in out or id(st) not in top or isinstance(st, ast.AugAssign) or st.value is None:
                            many.add(t.attr)
                        else:
                            out[t.attr] = st.value
        cache[id(nd)] = ({k: v for k, v in out.items() if k not in many}, nd)
    return cache[id(nd)][0], mm, nd


def instance_member(I, o, name, node):
    """member of an object built by a constructor of the package"""
    r = I.repo.resolve(o.args[0])
    if r[0] != "cls":
        return None
    mod, cnode = r[1], r[2]
    x = I.repo.class_lookup(mod, cnode, name)
    if x:
        kind, mm, nd = x[-1]
        if kind == "def" and isinstance(nd, ast.FunctionDef):
            decos = [dotted_name(d.func if isinstance(d, ast.Call) else d) or "" for d in nd.decorator_list]
            if any(d.split(".")[-1] in ("property", "cached_property") for d in decos):
                if sum(1 for s in I.stack if s.fnode is nd) >= 1:
                    return None
                return I.call_function(mm, nd, cnode, [], {}, self_term=o)
            if any(d.split(".")[-1] == "staticmethod" for d in decos):
                return mk("fn", o.args[0] + "." + name)
            return mk("bound_method", o, o.args[0] + "." + name)
        return None
    vals, mm, nd = init_assignments(I, mod, cnode)
    if name in vals:
        env = I.bind(mm, nd, list(o.args[1]), dict(o.args[2]), o)
        if env is not None:
            return I.eval_with(mm, vals[name], env)
    return None


def net_instance(I, o, name):
    """accessor objects of a network (n.optimize, n.statistics, ...): built by its constructor"""
    fc = I.repo.find_class("Network")
    if fc is None:
        return None
    vals, mm, nd = init_assignments(I, *fc)
    e = vals.get(name)
    if not (isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == nd.args.args[0].arg and not e.keywords):
        return None
    d = dotted_name(e.func)
    r = I.repo.lookup_name(mm, d) if d else None
    if r and r[0] == "cls":
        return mk("new", f"{r[1].name}.{r[2].name}", (o,), ())
    return None


def class_member(I, clsqual, name):
    r = I.repo.resolve(clsqual)
    if r[0] != "cls":
        return None
    x = I.repo.class_lookup(r[1], r[2], name)
    if not x:
        return None
    kind, mm, nd = x[-1]
    if kind == "def" and isinstance(nd, ast.FunctionDef):
        return mk("fn", clsqual + "." + name)
    if kind == "val":
        return I.eval_in_module(mm, nd)
    return None


def typed_member(I, o, ty, name, node=None):
    fc = I.repo.find_class(ty)
    if fc is None:
        return None
    mod, cnode = fc
    x = I.repo.class_lookup(mod, cnode, name)
    if not x:
        return None
    if static_type(o) is None and I.repo.overridden(cnode, name):
        return None       # which one is called depends on the object
    qual = f"{mod.name}.{cnode.name}.{name}"
    # property (first definition is the getter)
    for kind, mm, nd in x:
        if kind == "def" and isinstance(nd, ast.FunctionDef):
            decos = [dotted_name(d.func if isinstance(d, ast.Call) else d) or "" for d in nd.decorator_list]
            if any(d.split(".")[-1] in ("property", "cached_property") for d in decos):
                if sum(1 for s in I.stack if s.fnode is nd) >= 1:
                    return None
                if I.inline_filter and not I.inline_filter(qual) or qual in I.prims:
                    return mk("attr", o, name)
                return I.call_function(mm, nd, cnode, [], {}, self_term=o)
            if any(d.endswith(".setter") for d in decos):
                continue
            if any(d.split(".")[-1] == "staticmethod" for d in decos):
                return mk("fn", qual)
            return mk("bound_method", o, qual)
        if kind == "val":
            d = dotted_name(nd)
            if d:
                rr = I.repo.lookup_name(mm, d)
                if rr and rr[0] == "fn":
                    return mk("bound_method", o, f"{rr[1].name}.{rr[2].name}")
    return None


def mkvar(key):
    return lift(lambda k: mk("var", k), key)


# ---------------------------------------------------------------- calls
def prim_args(I, qual, args, kwargs, self_term=None):
    mod, nd, cls = I.repo.function(qual)
    env = I.bind(mod, nd, args, kwargs, self_term)
    return env


def mk_prim(I, qual, env, node):
    name = SHORT.get(qual, qual.rsplit(".", 1)[-1])
    if name == "get_switchable_as_dense":
        t = lift(lambda c, a: mk("dense", env["n"], c, a), env["component"], env["attr"])
        if env["snapshots"] is not NONE:
            t = at(I, t, env["snapshots"])
        if env["inds"] is not NONE:
            t = at(I, t, env["inds"])
        return t
    if name == "get_activity_mask":
        t = lift(lambda c: mk("activity", env["n"], c), env["c"])
        if env["sns"] is not NONE:
            t = at(I, t, env["sns"])
        if env["index"] is not NONE:
            t = at(I, t, env["index"])
        return t
    if name == "expand_series":
        return env["ser"]
    if qual == "pypsa.common.equals":
        env = {**env, "path": const("")}     # only used in messages
    if name == "get_active_assets":
        n = env.get("n")
        c = env.get("c")
        if n is None:
            s = env.get("c") or env.get("self")
            if s.op == "cobj":
                n, c = s.args
            else:
                n, c = s, NONE
        return mk("active", n, c, env["investment_period"])
    if name == "as_index":
        v = env["values"]
        if v.op == "prim" and v.args[0] == "as_index" and v.args[1] is env["n"] and v.args[3] is env["network_attribute"]:
            return v
        return mk("prim", "as_index", env["n"], env["values"], env["network_attribute"], env["force_subset"])
    items = []
    mod, nd, cls = I.repo.function(qual)
    for p in nd.args.posonlyargs + nd.args.args + nd.args.kwonlyargs:
        if p.arg in env:
            items.append(env[p.arg])
    if nd.args.vararg is not None and env.get(nd.args.vararg.arg, mk("tuple")) is not mk("tuple"):
        items.append(mk("star", env[nd.args.vararg.arg]))
    if nd.args.kwarg is not None and env.get(nd.args.kwarg.arg, mk("dict", ())) is not mk("dict", ()):
        items.append(env[nd.args.kwarg.arg])
    return mk("prim", name, *items)


def call(I, f, args, kwargs, node=None, stmt=False):
    o = f.op
    if o == "fn":
        if f.args[0] in I.prims:
            env = prim_args(I, f.args[0], args, kwargs)
            if env is None:
                return I.opaque("cannot bind " + f.args[0], *args, node=node)
            if f.args[0] == "pypsa.components.common.as_components" and "value" in env:
                return lift(lambda v: mk("cobj", env["n"], comp_name(I, v)), env["value"])
            t = mk_prim(I, f.args[0], env, node)
            if f.args[0] in EFFECT_PRIMS or f.args[0] in I.effect_prims:
                I.effect("call", {"call": t}, node)
            if f.args[0] == "pypsa.optimization.optimize.create_model" and env.get("n") is not None:
                return mk("model", env["n"])     # the model it builds is attached to the network and returned (O20)
            return t
        return None
    if o == "bound_method" and isinstance(f.args[1], T):
        return I.call(f.args[1], (f.args[0], *args), kwargs, node, stmt)
    if o == "bound_method":
        q = f.args[1]
        mod, nd, cls = I.repo.function(q)
        owner = I.repo.owner(mod, nd)
        full = f"{mod.name}.{owner + '.' if owner else ''}{nd.name}"
        if q in I.prims or full in I.prims:
            key = q if q in I.prims else full
            env = prim_args(I, q, args, kwargs, f.args[0])
            if env is None:
                return I.opaque("cannot bind " + q, *args, node=node)
            t = mk_prim(I, key, env, node)
            if key == "pypsa.networks.Network.copy":
                return fresh_net(I, t, node)
            if key in EFFECT_PRIMS or key in I.effect_prims:
                I.effect("call", {"call": t}, node)
            return t
        if nd.name == "iterate_components":
            comps = args[0] if args else kwargs.get("components", NONE)
            skip = args[1] if len(args) > 1 else kwargs.get("skip_empty", TRUE)
            if I.typeof(f.args[0]) == "Network" or f.args[0].op == "net":
                if comps is NONE:
                    comps = comp_set(I, "all_components")
                return lift(lambda c: mk("components", f.args[0], c, skip), comps)
            return mk("subcomponents", f.args[0], comps, skip)
        return None
    if o == "netfn":
        net, nm = f.args
        c = args[0] if args else next(iter(kwargs.values()), NONE)
        k = {"static": "static", "df": "static", "dynamic": "dynamic", "pnl": "dynamic", "component": "cobj"}[nm]

        def g(c):
            t = comp_by_key(I, net, c)
            return t if k == "cobj" else attr(I, t, k)
        return lift(g, c)
    if o == "closure":
        return None
    if o == "new":
        g = instance_member(I, f, "__call__", node)
        return I.call(g, args, kwargs, node, stmt) if g is not None and g.op == "bound_method" else None
    if o == "cls":
        return call_class(I, f, args, kwargs, node)
    if o == "ext":
        return call_ext(I, f.args[0], args, kwargs, node, stmt)
    if o == "attr":
        return call_method(I, f, f.args[0], f.args[1], args, kwargs, node, stmt)
    if o == "lam":
        return None
    return None


def call_class(I, f, args, kwargs, node):
    q = f.args[0]
    if q == "pypsa.definitions.structures.Dict" and not kwargs:
        if not args:
            return mk("dict", ())
        return args[0]
    t = mk("new", q, tuple(args), kwt(kwargs))
    if q == "pypsa.networks.Network":
        return fresh_net(I, t, node)
    return t


def fresh_net(I, how, node):
    """a network which did not exist before"""
    made = I.__dict__.setdefault("made", [])
    n = sum(1 for x in made if x is how)
    made.append(how)
    I.effect("call", {"call": how}, node)
    return mk("net", how if not n else mk("again", how, n))


def comp_name(I, v):
    """name of the component class a user named by class name, list name or object"""
    if v.op == "cobj":
        return v.args[1]
    if is_str(v):
        lists = list_names(I)
        return const(lists.get(v.args[0], v.args[0]))
    return mk("compname", v)


def kwt(kwargs):
    return tuple(sorted(kwargs.items()))


def model_model(I, args, kwargs, node):
    return mk("linopy_model", tuple(args), kwt(kwargs))


def ext_call_term(d, args, kwargs):
    return mk("call", mk("ext", d), tuple(args), kwt(kwargs))


SIDE_EFFECT_FREE_ROOTS = ("logger", "logging", "warnings", "gc")


def warned(I, name, node):
    """a message to the user"""
    if I.warn and name in ("warning", "warn", "error", "critical"):
        I.effect("warn", {"name": const("a warning")}, node)
    return NONE


NEW_OBJECTS = {"builtins.list", "builtins.dict", "builtins.set", "builtins.sorted", "pandas.Series", "pandas.DataFrame", "pandas.Index"}
NEW_FROM_METHOD = set()


def call_ext(I, d, args, kwargs, node, stmt):
    r = call_ext_(I, d, args, kwargs, node, stmt)
    if getattr(I, "keep_copies", False) and d in NEW_OBJECTS and isinstance(r, T) and args:
        return copied(r, {id(v) for _, v in leaves(args[0])})
    return r


def copied(t, originals):
    """t with copies in place of the originals"""
    if t.op == "ite":
        return ite(mk("ite", t.args[0], TRUE, FALSE), copied(t.args[1], originals), copied(t.args[2], originals))
    return mk("copy", t) if id(t) in originals and is_path(t) else t


def call_ext_(I, d, args, kwargs, node, stmt):
    root = d.split(".")[0]
    if root in SIDE_EFFECT_FREE_ROOTS:
        return warned(I, d.rsplit(".", 1)[-1], node)
    if d.startswith("builtins."):
        r = call_builtin(I, d[9:], args, kwargs, node)
        if r is not None:
            return r
        return None
    if "**" in kwargs:
        return None     # arguments which may say anything
    if d in ("numpy.isscalar", "pandas.api.types.is_list_like") and len(args) == 1 and not kwargs:
        t = pytype(args[0])
        if t in LISTLIKE | SCALARS:
            return const((t in SCALARS) == (d == "numpy.isscalar"))
    if d in ("xarray.DataArray", "pandas.Index", "numpy.asarray", "numpy.array", "pandas.Series") and len(args) == 1 and not (set(kwargs) - {"name", "dims", "dtype", "copy"}):
        if d == "pandas.Index" and args[0].op in LISTOPS:
            return args[0]
        if args[0].op == "dict" or d == "pandas.Series" and pytype(args[0]) not in (None, "pandas.Series"):
            return None
        return args[0]
    if d == "pandas.DataFrame" and len(args) == 1 and not kwargs and is_table(args[0]):
        return args[0]
    if d in ("copy.copy", "copy.deepcopy") and len(args) == 1 and args[0].op == "net":
        return fresh_net(I, mk("call", mk("ext", d), tuple(args), ()), node)
    if d in ("copy.copy", "copy.deepcopy") and len(args) == 1:
        if getattr(I, "keep_copies", False):
            return mk(d.split(".")[1], args[0])
        return args[0]
    if d in ("pandas.Series", "pandas.DataFrame", "xarray.DataArray") and args and is_num(args[0]):
        idx = list(args[1:]) + [kwargs[k] for k in ("index", "columns") if k in kwargs]
        return mk("full", args[0], tuple(idx))
    if d == "pandas.DataFrame" and not args and set(kwargs) <= {"index", "columns"} and len(kwargs) == 2 and False:
        return None
    if d == "linopy.merge":
        x = args[0] if args else kwargs.get("exprs")
        if len(args) > 1 and all(a.op != "list" for a in args):
            return lsum(I, mk("list", *args))
        dim = kwargs.get("dim")
        if dim is not None and not (is_str(dim) and dim.args[0] == "_term"):
            return mk("stack", x)
        return lsum(I, x)
    if d == "linopy.Model":
        return mk("linopy_model", tuple(args), kwt(kwargs))
    if d == "linopy.LinearExpression.from_tuples":
        return as_expr(I, mk("tuple", *args))
    if d in ("linopy.LinearExpression.sum",) and args:
        return lsum(I, args[0])
    if d in ("numpy.sin", "numpy.cos", "numpy.tan") and len(args) == 1 and not kwargs and args[0].op == "poly":
        # odd and even functions: the sign of the first term decides
        if args[0].args[0] and args[0].args[0][0][1] < 0:
            r = mk("call", mk("ext", d), (neg(args[0]),), ())
            return r if d == "numpy.cos" else neg(r)
        return None
    if d == "numpy.sqrt" or d == "math.sqrt":
        return power(args[0], const(0.5))
    if d in ("numpy.abs", "numpy.absolute"):
        return mk("abs", args[0])
    if d in ("numpy.square",):
        return mul(args[0], args[0])
    if d in ("numpy.real", "numpy.imag", "numpy.conj", "numpy.conjugate") and len(args) == 1:
        return lift(lambda x: mk(d.split(".")[1][:4], x), args[0])
    if d in ("numpy.multiply",) and len(args) == 2:
        return mul(*args)
    if d in ("numpy.add",) and len(args) == 2:
        return add(*args)
    if d in ("numpy.subtract",) and len(args) == 2:
        return sub(*args)
    if d in ("numpy.divide", "numpy.true_divide") and len(args) == 2:
        return div(*args)
    if d in ("numpy.isnan", "pandas.isna", "pandas.isnull", "numpy.isnull") and len(args) == 1:
        return mk_isnull(args[0])
    if d in ("pandas.notna", "pandas.notnull") and len(args) == 1:
        return e_not(mk_isnull(args[0]))
    if d in ("numpy.isfinite",):
        return mk("isfinite", args[0])
    if d == "numpy.isinf":
        return mk("isinf", args[0])
    if d == "numpy.where" and len(args) == 3:
        return where(args[1], args[0], args[2])
    if d in ("numpy.minimum", "numpy.fmin") and len(args) == 2:
        return mk("min2", *sorted(args))
    if d in ("numpy.maximum", "numpy.fmax") and len(args) == 2:
        return mk("max2", *sorted(args))
    if d == "itertools.product":
        its = [iterate(I, a) for a in args]
        if all(i is not None for i in its) and not kwargs:
            out = [(TRUE, ())]
            for it in its:
                out = [(b_and(g, gg), t + (v,)) for g, t in out for gg, v in it]
            return concat([guard_list(g, mk("list", mk("tuple", *t))) for g, t in out])
        return mk("product", *args)
    if d == "itertools.chain":
        return concat([mk("list", *a.args) if a.op in ("tuple", "set") else a for a in args])
    if d == "itertools.chain.from_iterable" and args[0].op in ("list", "tuple"):
        return concat(list(args[0].args))
    if d == "functools.partial":
        return mk("partial", args[0], tuple(args[1:]), kwt(kwargs))
    if d == "os.path.join" and all(is_str(a) for a in args):
        return const("/".join(a.args[0] for a in args))
    if d == "re.sub":
        return ext_call_term(d, args, kwargs)
    if d == "operator.attrgetter":
        return None
    return None


def mk_isnull(x):
    def f(x):
        if x.op in ("num",):
            return FALSE
        if x.op == "const":
            return const(x.args[0] is None)
        if x.op == "ext" and x.args[0] == "nan":
            return TRUE
        return mk("isnull", x)
    return lift(f, x)


def call_builtin(I, d, args, kwargs, node):
    a = args[0] if args else None
    if d in ("set.union", "set.intersection", "set.difference") and args and not kwargs:
        rest = args if d != "set.difference" else args[1:]
        return mk("setalgebra", const(d[4:]), *(args[:1] if rest is not args else ()), *sorted(rest))
    if d == "len" and a is not None:
        def f(x):
            if x.op in ("list", "tuple", "set"):
                return const(len(x.args))
            if x.op == "dict":
                return const(len(x.args[0]))
            if is_str(x):
                return const(len(x.args[0]))
            return mk("len", emptiness_key(x))
        return lift(f, a)
    if d in ("list", "tuple", "sorted", "reversed") and a is not None:
        def f(x):
            its = iterate(I, x)
            if its is not None and all(g is TRUE for g, _ in its):
                vals = [v for _, v in its]
                if d == "sorted":
                    if kwargs or not all(is_str(v) for v in vals):
                        return None if kwargs else mk("sorted", mkset(vals))
                    vals.sort(key=lambda v: v.args[0])
                if d == "reversed":
                    vals = vals[::-1]
                return mk("tuple" if d == "tuple" else "list", *vals)
            if d in ("list", "tuple"):
                return x
            m = set_members(I, x) if d == "sorted" and not kwargs else None
            if m and all(is_str(v) for _, v in m):
                return in_order(sorted(m, key=lambda gx: gx[1].args[0]))
            return mk(d, x) if not kwargs else None
        r = lift(f, a) if a.op != "ite" or not kwargs else None
        return r
    if d == "list" and a is None:
        return mk("list")
    if d == "tuple" and a is None:
        return mk("tuple")
    if d in ("set", "frozenset"):
        if a is None:
            return mk("set")
        if a.op in ("list", "tuple", "set"):
            return mkset(a.args)
        return mk("setof", a)
    if d == "dict":
        if a is None:
            if "**" in kwargs:
                kw = dict(kwargs)
                s = kw.pop("**")
                return dictmerge([mkdict({const(k): v for k, v in kw.items()}), s])
            return mkdict({const(k): v for k, v in kwargs.items()})
        if a.op == "dict":
            dd = dict(a.args[0])
            for k, v in kwargs.items():
                if k == "**":
                    return None
                dd[const(k)] = v
            return mkdict(dd)
        if a.op in ("list", "tuple") and all(x.op in ("tuple", "list") and len(x.args) == 2 for x in a.args):
            return mkdict({x.args[0]: x.args[1] for x in a.args})
        if not kwargs:
            return a
        return None
    if d == "range":
        if all(is_num(x) for x in args):
            r = range(*[int(x.args[0]) for x in args])
            if len(r) <= 40:
                return mk("list", *[const(i) for i in r])
        if len(args) == 1:
            return mk("range", ZERO, a, ONE)
        if len(args) == 2:
            return mk("range", args[0], args[1], ONE)
        return mk("range", *args)
    if d == "enumerate" and a is not None:
        its = iterate(I, a)
        if its is not None and all(g is TRUE for g, _ in its):
            s = args[1] if len(args) > 1 else kwargs.get("start", ZERO)
            return mk("list", *[mk("tuple", add(const(i), s), v) for i, (_, v) in enumerate(its)])
        return mk("enumerate", a)
    if d == "zip":
        its = [iterate(I, x) for x in args]
        if all(i is not None and all(g is TRUE for g, _ in i) for i in its):
            return mk("list", *[mk("tuple", *[v for _, v in t]) for t in zip(*its)])
        return mk("zip", *args)
    if d == "map" and len(args) == 2:
        its = iterate(I, args[1])
        if its is not None:
            return concat([guard_list(g, mk("list", I.call(args[0], [v], {}, node))) for g, v in its])
        x = args[1]
        if x.op == "ite" and all(iterate(I, v) is not None for _, v in leaves(x)):
            return lift(lambda v: mk("list", *[I.call(args[0], [e], {}, node) for _, e in iterate(I, v)]), x)
        return mk("comp", "list", x, mk("list", I.lam(args[0], 1)), TRUE)
    if d == "filter" and len(args) == 2:
        return mk("filter", I.lam(args[0], 1), args[1])
    if d in ("sum",) and a is not None and not kwargs:
        r = lsum(I, a)
        return add(r, args[1]) if len(args) > 1 else r
    if d in ("any", "all") and a is not None:
        its = iterate(I, a)
        if its is not None:
            r = FALSE if d == "any" else TRUE
            for g, v in its:
                tv = truth(v)
                r = b_or(r, b_and(g, tv)) if d == "any" else b_and(r, b_or(b_not(g), tv))
            return r
        if a.op == "comp":
            body = a.args[2]
            if body.op == "list" and len(body.args) == 1:
                tb = truth(body.args[0])
                if d == "all":
                    inner = b_or(b_not(a.args[3]), tb)
                    return mk("ite", mk("forall", a.args[1], inner), TRUE, FALSE)
                inner = b_and(a.args[3], tb)
                return b_not(mk("ite", mk("forall", a.args[1], b_not(inner)), TRUE, FALSE))
        return mk_any(a) if d == "any" else mk_all(a)
    if d in ("int", "float", "bool") and a is not None:
        def f(x):
            if x.op == "num":
                v = cval(x)
                return const({"int": int, "float": float, "bool": bool}[d](v)) if d != "bool" else const(bool(v))
            if x.op == "const" and isinstance(x.args[0], bool):
                return const(int(x.args[0])) if d != "bool" else x
            if is_str(x):
                try:
                    return const({"int": int, "float": float, "bool": bool}[d](x.args[0]))
                except ValueError:
                    pass
            if d == "bool":
                return x
            if d == "float":
                return x
            return mk("call", mk("ext", "builtins." + d), (x,), ())
        return lift(f, a)
    if d == "str" and a is not None:
        return to_str(a)
    if d == "abs" and a is not None:
        if is_num(a):
            return const(abs(a.args[0]))
        return mk("abs", a)
    if d in ("min", "max") and len(args) >= 2:
        if all(is_num(x) for x in args):
            return const((min if d == "min" else max)(x.args[0] for x in args))
        return mk(d + "2", *sorted(args))
    if d == "isinstance" and len(args) == 2:
        return isinstance_term(I, args[0], args[1])
    if d == "getattr":
        if is_str(args[1]):
            nm = args[1].args[0]
            if len(args) == 3:
                if args[0].op in ("net", "cobj") :
                    r = attr(I, args[0], nm, node)
                    return r
                return mk("call", mk("ext", "builtins.getattr"), tuple(args), ())
            return I.attr(args[0], nm, node)
        if args[0].op == "net" and args[1].op in ("const",):
            pass
        return mk("call", mk("ext", "builtins.getattr"), tuple(args), ())
    if d == "hasattr":
        return mk("hasattr", *args)
    if d == "setattr" and len(args) == 3:
        if is_path(args[0]):
            key = args[1]
            if is_str(key):
                tgt, kk = canon_attr_store(I, args[0], key.args[0])
            else:
                tgt, kk = args[0], key
            I.effect("store", {"obj": tgt, "key": kk, "val": args[2]}, node)
            I.heap_store(tgt, kk, args[2])
        return NONE
    if d == "slice":
        x = list(args)
        if len(x) == 1:
            return mk("slice", NONE, x[0], NONE)
        while len(x) < 3:
            x.append(NONE)
        return mk("slice", *x)
    if d == "type" and len(args) == 1:
        return mk("typeof", a)
    if d == "print":
        return NONE
    if d == "next" and a is not None:
        return mk("next", *args)
    if d in ("callable", "id", "hash", "repr", "vars", "dir", "issubclass", "round", "divmod", "pow", "ord", "chr"):
        return mk("call", mk("ext", "builtins." + d), tuple(args), kwt(kwargs))
    if d == "super":
        fr = I.stack[-1]
        while fr is not None and fr.cls is None:
            fr = fr.parent
        own = I.repo.owner(fr.module, fr.fnode) if fr is not None and fr.fnode is not None and not args else None
        return mk("super", I.stack[-1].env.get("self", NONE), fr.module.name + "." + own if own else None)
    return None


def type_alternatives(ty):
    """names of the classes of a class, tuple or union; None if not all are known"""
    if ty.op in ("ext", "cls"):
        return {ty.args[0]}
    if ty.op in ("tuple", "set", "or", "bitor"):
        parts = [type_alternatives(a) for a in (ty.args[0] if ty.args and isinstance(ty.args[0], tuple) else ty.args) if isinstance(a, T)]
        if parts and all(parts):
            return set().union(*parts)
    if ty.op == "poly" or ty.op == "ite":
        return None
    return None


SUBTYPES = {"pypsa.definitions.components.ComponentsStore": {"builtins.dict"}, "pypsa.definitions.structures.Dict": {"builtins.dict"}, "pandas.DatetimeIndex": {"pandas.Index"}, "pandas.MultiIndex": {"pandas.Index"}}
LISTLIKE = {"pandas.Series", "pandas.DataFrame", "pandas.Index", "pandas.DatetimeIndex", "pandas.MultiIndex", "numpy.ndarray",
            "builtins.list", "builtins.dict", "builtins.tuple", "builtins.set"}
SCALARS = {"builtins.str", "builtins.int", "builtins.float", "builtins.bool"}


def pytype(x):
    """exact class of a value whose class is known from the case under analysis or from how it was made"""
    if x.op == "param" and len(x.args) > 2:
        return x.args[2]
    if x.op == "param" and len(x.args) > 1:
        return "pandas.Series" if len(x.args[1]) == 1 else "pandas.DataFrame"
    if x.op == "at" and all(k.op == "pos" for k in x.args[1]) and pytype(x.args[0]) in ("pandas.Series", "numpy.ndarray", "builtins.list"):
        return "builtins.float"     # the cases under analysis hold numbers
    if x.op in ("relabel", "upd") and x.args[0].op != "dict":
        t = pytype(x.args[0])
        return t if t in ("pandas.Series", "pandas.DataFrame") else None
    if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("pandas.Series", "pandas.DataFrame"):
        return x.args[0].args[0]
    return None


def is_table(x):
    """a table with one row per component"""
    if x.op == "static":
        return True
    if x.op == "ite":
        return all(is_table(v) for _, v in leaves(x))
    if x.op == "at" and len(x.args[1]) == 1:
        k = x.args[1][0]
        return is_table(x.args[0]) and (k.op in ("idx", "slice", "list", "and", "or", "not", "eq", "ne", "lt", "le", "isnull", "notnull", "isin")
                                        or pytype(k) in ("pandas.Index", "builtins.list", "pandas.MultiIndex"))
    if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("drop", "assign", "copy", "reindex", "rename", "query", "sort_index", "fillna"):
        return is_table(x.args[0].args[0])
    return False


def isinstance_term(I, x, ty):
    def f(x):
        if is_str(x) and ty.op == "ext":
            return const(ty.args[0] == "builtins.str")
        if x.op in ("list", "dict", "tuple", "set") and ty.op == "ext" and ty.args[0].startswith("builtins."):
            return const(ty.args[0] == "builtins." + x.op)
        if x is NONE:
            return FALSE
        alts = type_alternatives(ty)
        mine = pytype(x) if alts else None
        if mine:
            return const(bool(alts & (SUBTYPES.get(mine, set()) | {mine, "builtins.object"})))
        if ty.op == "ext" and ty.args[0] in ("pandas.Series", "pandas.DataFrame"):
            ax = axes(x)
            if ax is not None and 1 <= len(ax) <= 2:
                return const((len(ax) == 1) == (ty.args[0] == "pandas.Series"))
        if x.op == "unique" and ty.op == "ext" and ty.args[0] in ("builtins.str", "builtins.int", "builtins.float", "builtins.list", "builtins.dict", "builtins.tuple"):
            return FALSE        # values of a column
        mine = class_names(I, x)
        if mine:
            cl = [t for t in (ty.args if ty.op in ("tuple", "set", "bitor") else (ty,))]
            if cl and all(t.op in ("cls", "ext") for t in cl):
                hit = any(t.op == "cls" and t.args[0].rsplit(".", 1)[-1] in mine for t in cl)
                return const(hit)
        if ty.op in ("tuple", "set", "or", "bitor"):
            parts = ty.args[0] if ty.args and isinstance(ty.args[0], tuple) else ty.args
            if parts and all(isinstance(p, T) and p.op in ("ext", "cls", "tuple", "set", "or", "bitor") for p in parts):
                out = FALSE
                for p in parts:
                    out = b_or(out, truth(isinstance_term(I, x, p)))
                return out
        return mk("isinstance", x, ty if ty.op != "tuple" else mkset(ty.args))
    return lift(f, x)


def class_names(I, x):
    """names of the classes an object of the package is an instance of"""
    if x.op == "new":
        q = x.args[0]
    else:
        q = {"Network": "pypsa.networks.Network", "SubNetwork": "pypsa.networks.SubNetwork"}.get(I.typeof(x))
    if not q or not str(q).startswith("pypsa."):
        return None
    out, todo = set(), [q]
    while todo:
        q = todo.pop()
        r = I.repo.resolve(q)
        if not r or r[0] != "cls":
            return None
        out.add(r[2].name)
        for b in r[2].bases:
            d = ast.unparse(b)
            rb = I.repo.lookup_name(r[1], d)
            if rb and rb[0] == "cls":
                todo.append(rb[1].name + "." + rb[2].name)
    return out


# ---------------------------------------------------------------- methods
AXIS_KW = {"axis", "level", "fill_value_", "dim", "copy", "inplace", "observed", "drop", "numeric_only", "skipna", "sort", "join", "deep", "group_keys"}


def red_kw(kwargs):
    """reduction axis spec (canonical)"""
    out = []
    for k, v in kwargs.items():
        if k in ("dim", "axis") :
            if v is ZERO:
                continue
            out.append((k, v))
        elif k == "level":
            out.append((k, v))
        elif k in ("min_count",):
            out.append((k, v))
    return tuple(sorted(out))


def call_method(I, f, o, name, args, kwargs, node, stmt):
    """o.name(*args, **kwargs)"""
    if kwargs.get("inplace") is TRUE and node is not None and isinstance(node.func, ast.Attribute) and not any(is_path(x) or contains_path_root(x) for _, x in leaves(o)):
        # a local object replaced by the result
        r = I.call(attr(I, o, name), args, {k: v for k, v in kwargs.items() if k != "inplace"}, node, stmt)
        if r is not None:
            rebind(I, node.func.value, o, r)
            return NONE
    # ------ net-like things whose method is unknown
    if o.op == "ext" and o.args[0] in SIDE_EFFECT_FREE_ROOTS:
        return warned(I, name, node)
    if o.op == "super":
        return mk("call", f, tuple(args), kwt(kwargs))
    if name == "__getitem__" and len(args) == 1 and not kwargs and o.op in ("param", "at", "dict", "list", "tuple"):
        return item(I, o, args[0])
    if o.op in ("model", "linopy_model"):
        r = model_call(I, o, name, args, kwargs, node)
        if r is not None:
            return r
    # ------ strings
    if is_str(o):
        r = str_method(I, o, name, args, kwargs)
        if r is not None:
            return r
    if name == "format" and strlike(o):
        r = str_format(o, args, kwargs)
        return r if r is not None else mk("strfmt", o, *args)
    if name == "join" and strlike(o) and args:
        x = args[0]
        if x.op in ("list", "tuple") and all(is_str(y) for y in x.args) and is_str(o):
            return const(o.args[0].join(y.args[0] for y in x.args))
        return mk("strjoin", o, x)
    # ------ python containers
    r = container_method(I, o, name, args, kwargs, node)
    if r is not None:
        return r
    # ------ csv lookup table
    if o.op == "csv":
        if name == "query" and is_str(args[0]):
            return csv_query(I, o, args[0].args[0])
    # ------ data
    r = data_method(I, f, o, name, args, kwargs, node)
    return r


def model_call(I, o, name, args, kwargs, node):
    if name in ("add_variables",):
        kw = dict(kwargs)
        for k, v in zip(("lower", "upper", "coords", "name", "mask", "binary", "integer"), args):
            kw[k] = v
        I.effect("var", kw, node)
        return mkvar(kw.get("name", mk("opaque", "unnamed")))
    if name == "add_constraints":
        kw = dict(kwargs)
        names = ("lhs", "sign", "rhs", "name", "mask")
        for k, v in zip(names, args):
            kw[k] = v
        lhs = as_expr(I, kw.get("lhs", NONE))
        data = {"name": kw.get("name", NONE), "mask": kw.get("mask", NONE), **{k: v for k, v in kw.items() if k not in names}}
        if "sign" in kw and kw["sign"] is not NONE:
            s = lift(lambda x: const({"==": "="}.get(x.args[0], x.args[0])) if is_str(x) else x, kw["sign"])
            data["sense"] = s
            data["expr"] = sub(lhs, as_expr(I, kw.get("rhs", NONE)))
        else:
            data["sense"] = lift(lambda x: const(x.args[0]) if x.op == "con" else const("?"), lhs)
            data["expr"] = lift(lambda x: x.args[1] if x.op == "con" else x, lhs)
        I.effect("con", data, node)
        return mk("con_ref", data["name"])
    if name == "linexpr":
        return as_expr(I, mk("tuple", *args))
    if name == "add_objective":
        kw = dict(kwargs)
        I.effect("store", {"obj": o, "key": const("objective"), "val": args[0] if args else kw.get("expr", NONE)}, node)
        if kw.get("sense", const("min")) is not const("min"):
            I.effect("store", {"obj": o, "key": const("sense"), "val": kw["sense"]}, node)
        return NONE
    if name in ("solve",):
        I.effect("call", {"call": mk("call", mk("attr", o, name), tuple(args), kwt(kwargs))}, node)
        return mk("call", mk("attr", o, name), tuple(args), kwt(kwargs))
    return None


def str_method(I, o, name, args, kwargs):
    s = o.args[0]
    if not all(is_const(a) for a in args) or kwargs:
        if name in ("startswith", "endswith") and args[0].op == "tuple" and all(is_str(x) for x in args[0].args):
            return const(getattr(s, name)(tuple(x.args[0] for x in args[0].args)))
        return None
    vals = [cval(a) for a in args]
    if name in ("replace", "strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "removeprefix", "removesuffix", "capitalize", "title", "isdigit", "isidentifier"):
        try:
            return const(getattr(s, name)(*vals))
        except Exception:
            return None
    if name in ("split", "rsplit", "partition", "rpartition", "splitlines"):
        try:
            return mk("list", *[const(x) for x in getattr(s, name)(*vals)])
        except Exception:
            return None
    return None


def container_method(I, o, name, args, kwargs, node):
    ob = o.op
    if ob == "dict":
        if name == "items" and not args:
            return mk("list", *[mk("tuple", k, v) for k, v in o.args[0]])
        if name == "keys" and not args:
            return mk("list", *[k for k, _ in o.args[0]])
        if name == "values" and not args:
            return mk("list", *[v for _, v in o.args[0]])
        if name == "get":
            for k, v in o.args[0]:
                if k is args[0]:
                    return v
            if is_const(args[0]) and all(is_const(k) for k, _ in o.args[0]):
                return args[1] if len(args) > 1 else kwargs.get("default", NONE)
            return mk("dictget", o, args[0], args[1] if len(args) > 1 else NONE)
        if name == "copy":
            return o
    if ob == "set" and name in ("intersection", "union", "difference", "isdisjoint", "issubset", "issuperset") and args:
        b = args[0]
        if b.op in ("set", "list", "tuple") and all(is_const(x) for x in o.args + b.args):
            sa, sb = list(o.args), list(b.args)
            if name == "intersection":
                return mkset([x for x in sa if x in sb])
            if name == "union":
                return mkset(sa + sb)
            if name == "difference":
                return mkset([x for x in sa if x not in sb])
            if name == "isdisjoint":
                return const(not any(x in sb for x in sa))
            if name == "issubset":
                return const(all(x in sb for x in sa))
        if name == "isdisjoint":
            r = TRUE
            for x in o.args:
                r = b_and(r, b_not(truth(contains_term(I, x, b))))
            return r
        if name == "issubset":
            r = TRUE
            for x in o.args:
                r = b_and(r, truth(contains_term(I, x, b)))
            return r
        if name == "intersection" and b.op == "dynamic":
            keep = [x for x in o.args if contains_term(I, x, b) is TRUE]
            rest = [x for x in o.args if contains_term(I, x, b) not in (TRUE, FALSE)]
            drop = [x for x in rest if is_str(x) and is_str(b.args[1]) and I.repo.attrs(b.args[1].args[0]).get(x.args[0]) is None]
            if len(drop) == len(rest):
                return mkset(keep)
    if ob == "set" and name == "pop" and not args and len(o.args) == 1:
        return o.args[0]
    if ob in ("list", "concat", "glist", "comp", "loopvar", "set", "ite", "dict", "updover", "upd", "tuple") and name in MUTATORS and node is not None and isinstance(node.func, ast.Attribute) and mutates(node):
        r = mutate_local(I, o, name, args, kwargs, node)
        if r is not None:
            return r
    if name in ("pop", "setdefault", "get") and args and kwroot(o).key in I.kwvars:
        a = args[0]
        dflt = args[1] if len(args) > 1 else NONE
        cur, res = o, None
        while cur.op in ("dictdrop", "dictdefault") and is_const(a):
            if cur.args[1] is a:
                res = dflt if cur.op == "dictdrop" else mk("dictget", cur.args[0], a, cur.args[2])
                break
            if not is_const(cur.args[1]):
                break
            cur = cur.args[0]
        if res is None:
            res = mk("dictget", cur, a, dflt)
        if name == "get":
            return res
        if node is None or not isinstance(node.func, ast.Attribute):
            return None
        new = mk("dictdrop", o, a) if name == "pop" else mk("dictdefault", o, a, dflt)
        rebind(I, node.func.value, o, new)
        return res
    if ob in ("list", "tuple") and name == "index" and args and args[0] in o.args:
        return const(o.args.index(args[0]))
    if ob in ("list", "tuple") and name == "copy":
        return o
    if ob == "csvrows" and name == "query":
        return None
    return None


def kwroot(o):
    while o.op in ("dictdrop", "dictdefault"):
        o = o.args[0]
    return o


def mutate_local(I, o, name, args, kwargs, node):
    """list.append & co on a local container: rebind the variable"""
    a = args[0] if args else NONE
    res = NONE
    if name == "append":
        new = lift2(lambda x: concat([x, mk("list", a)]), o)
    elif name == "extend":
        b = a
        if a.op == "tuple" or a.op == "set":
            b = mk("list", *a.args)
        new = lift2(lambda x: concat([x, b]), o)
    elif name == "add":
        new = lift2(lambda x: mkset(x.args + (a,)) if x.op == "set" else mk("setadd", x, a), o)
    elif name == "update":
        def f(x):
            if x.op == "dict" and (not args or a.op == "dict"):
                d = dict(x.args[0])
                if args:
                    d.update(dict(a.args[0]))
                for k, v in kwargs.items():
                    d[const(k)] = v
                return mkdict(d)
            if x.op == "set":
                return mkset(x.args + a.args) if a.op in ("set", "list", "tuple") else mk("setunion", x, a)
            if kwargs:
                return mk("dictmerge", x, a, mkdict({const(k): v for k, v in kwargs.items()}))
            return dictmerge([x, a])
        new = lift2(f, o)
    elif name == "pop" and o.op == "dict" and args:
        d = dict(o.args[0])
        res = d.pop(a, args[1] if len(args) > 1 else mk("missing"))
        new = mkdict(d)
    elif name == "pop" and o.op == "list":
        i = int(a.args[0]) if is_num(a) else -1
        if o.args:
            res = o.args[i]
            l = list(o.args)
            del l[i]
            new = mk("list", *l)
        else:
            return None
    elif name == "setdefault" and o.op == "dict":
        d = dict(o.args[0])
        if a in d:
            return d[a]
        d[a] = args[1] if len(args) > 1 else NONE
        res = d[a]
        new = mkdict(d)
    elif name == "setdefault" and args:
        # kept where present, inserted where not
        new = ite(contains_term(I, a, o), o, mk("upd", o, a, args[1] if len(args) > 1 else NONE))
        res = at(I, new, a)
    elif name == "remove" and o.op in ("list", "set") and a in o.args:
        l = list(o.args)
        l.remove(a)
        new = mk(o.op, *l)
    elif name == "discard" and o.op == "set" and all(is_const(x) for x in o.args) and is_const(a):
        new = mk("set", *[x for x in o.args if x is not a])
    elif name == "insert" and o.op == "list" and is_num(a):
        l = list(o.args)
        l.insert(int(a.args[0]), args[1])
        new = mk("list", *l)
    elif name == "sort" and o.op == "list":
        new = mk("list", *o.args) if not all(is_str(x) for x in o.args) else mk("list", *sorted(o.args, key=lambda x: x.args[0]))
    elif name in ("sort",):
        new = mk("sorted", o)
    else:
        new = mk("mut", name, o, tuple(args), kwt(kwargs))
    base = node.func.value
    rebind(I, base, o, new)
    return res


def lift2(f, o):
    return lift(f, o)


def inplace_op(I, t):
    """an augmented assignment to a name bound to t changes the object instead of binding a new one"""
    return t is not None and t.op in ("list", "concat", "glist", "comp", "dict", "set", "dictmerge")


def rebind(I, base, old, new):
    if isinstance(base, ast.Name):
        fr = I.owner(base.id, I.stack[-1])
        if base.id not in fr.env:
            fr = I.find_frame(base.id)
        if fr is not None and base.id in fr.env:
            I.set_inplace(fr, base.id, new)
            I._carry_type(old, new)
    elif isinstance(base, ast.Subscript):
        o2 = I.ev(base.value)
        k2 = I.ev_slice(base.slice)
        I._store(base.value, o2, k2, new, base)
    elif isinstance(base, ast.Attribute):
        o2 = I.ev(base.value)
        I.store_attr(base.value, o2, base.attr, new, base)


def csv_query(I, o, q):
    rows = I.repo.csv_rows(o.args[0])
    cols = list(rows[0].keys())
    expr = ast.parse(q.replace("@", "__at_"), mode="eval").body

    def val(r, e):
        if isinstance(e, ast.Name):
            if e.id.startswith("__at_"):
                v = I.lookup(e.id[5:])
                if v.op in ("list", "tuple", "set"):
                    return [cval(x) for x in v.args]
                return cval(v)
            x = r[e.id]
            return {"True": True, "False": False}.get(x, x)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not val(r, e.operand)
        if isinstance(e, ast.BoolOp):
            vs = [val(r, x) for x in e.values]
            return all(vs) if isinstance(e.op, ast.And) else any(vs)
        if isinstance(e, ast.Compare):
            a, b = val(r, e.left), val(r, e.comparators[0])
            op = e.ops[0]
            if isinstance(op, ast.In):
                return a in b
            if isinstance(op, ast.NotIn):
                return a not in b
            if isinstance(op, ast.Eq):
                return a == b
            if isinstance(op, ast.NotEq):
                return a != b
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, (ast.List, ast.Tuple)):
            return [val(r, x) for x in e.elts]
        raise KeyError(ast.dump(e))

    try:
        sel = [r for r in rows if val(r, expr)]
    except KeyError:
        return mk("csvquery", o, const(q))
    return mk("csvrows", tuple((r[cols[0]], r[cols[1]]) for r in sel))


def with_holes(t):
    """a string with unknown parts that stand for (parts of) names: (text with place holders, the parts)"""
    holes = [x for x in t.args if not is_str(x)]
    out, n = "", 0
    for x in t.args:
        out += x.args[0] if is_str(x) else f"__hole{n}__"
        n += not is_str(x)
    return out, holes


def query_mask(I, base, q, holes=()):
    """boolean mask described by a DataFrame.query string"""
    s = q
    try:
        # pandas gives & and | the precedence of and / or
        expr = ast.parse(s.replace("@", "__at_").replace("&", " and ").replace("|", " or ").strip(), mode="eval").body
    except SyntaxError:
        return None

    class R(ast.NodeTransformer):
        pass

    def ev(e):
        if isinstance(e, ast.Name):
            if e.id.startswith("__at_"):
                return I.lookup(e.id[5:])
            if "__hole" in e.id:
                parts = re.split(r"__hole(\d+)__", e.id)
                return at(I, base, cat([holes[int(x)] if i % 2 else const(x) for i, x in enumerate(parts) if i % 2 or x]))
            if e.id == "inf":
                return const(float("inf"))
            if e.id == "index":
                return index_of(I, base)
            return at(I, base, const(e.id))
        if isinstance(e, ast.Attribute):
            return I.attr(ev(e.value), e.attr)
        if isinstance(e, ast.UnaryOp):
            v = ev(e.operand)
            if isinstance(e.op, (ast.Not, ast.Invert)):
                return e_not(v)
            return neg(v)
        if isinstance(e, ast.BoolOp):
            vs = [ev(x) for x in e.values]
            return e_and(*vs) if isinstance(e.op, ast.And) else e_or(*vs)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.BitAnd):
                return e_and(ev(e.left), ev(e.right))
            if isinstance(e.op, ast.BitOr):
                return e_or(ev(e.left), ev(e.right))
            return I.binop(e.op, ev(e.left), ev(e.right))
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            xs = [e.left] + list(e.comparators)
            return e_and(*[ev(ast.Compare(x, [o], [y])) for x, o, y in zip(xs, e.ops, xs[1:])])
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = ev(e.left), ev(e.comparators[0])
            if isinstance(e.ops[0], (ast.In, ast.NotIn)):
                r = mk_isin(a, b)
                return r if isinstance(e.ops[0], ast.In) else e_not(r)
            if isinstance(e.ops[0], (ast.Eq, ast.NotEq)) and b.op in ("list", "tuple", "set"):
                r = mk_isin(a, b)
                return r if isinstance(e.ops[0], ast.Eq) else e_not(r)
            return cmp(CMPS[type(e.ops[0]).__name__], a, b)
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, (ast.List, ast.Tuple)):
            return mk("list", *[ev(x) for x in e.elts])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            return I.call(mk("attr", ev(e.func.value), e.func.attr) if True else None, [ev(a) for a in e.args], {}, e)
        raise ValueError

    try:
        return ev(expr)
    except ValueError:
        return None


def mk_isin(a, b):
    def f(a, b):
        if b.op in ("list", "tuple", "set"):
            b2 = mkset(b.args)
            if len(b2.args) == 1:
                return cmp("eq", a, b2.args[0])
            if is_const(a) and all(is_const(x) for x in b2.args):
                return const(a in b2.args)
            return mk("isin", a, b2)
        return mk("isin", a, b)
    return lift(f, a, b)


ARITH = {"mul": mul, "multiply": mul, "add": add, "sub": sub, "subtract": sub, "div": div, "divide": div, "truediv": div,
         "rsub": lambda a, b: sub(b, a), "rmul": lambda a, b: mul(b, a), "radd": lambda a, b: add(b, a), "rdiv": lambda a, b: div(b, a),
         "rtruediv": lambda a, b: div(b, a)}
CMPM = {"eq": "eq", "ne": "ne", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge"}


def data_method(I, f, o, name, args, kwargs, node):
    r = data_method_(I, f, o, name, args, kwargs, node)
    if getattr(I, "keep_copies", False) and r is o and name in NEW_FROM_METHOD and kwargs.get("inplace") is not TRUE:
        return mk("copy", o)
    return r


def data_method_(I, f, o, name, args, kwargs, node):
    a = args[0] if args else None
    if "**" in kwargs:
        return None     # arguments which may say anything
    # transparent
    if name == "copy" and getattr(I, "keep_copies", False):
        return mk("copy", o)
    if name == "rename_axis" and "axis names" in I.prims:
        return mk("axisnames", o, tuple(args), kwt(kwargs))     # the format records the names of the axes
    if name in ("copy", "to_xarray", "to_numpy", "toarray", "to_index", "rename_axis", "infer_objects", "set_names", "to_pandas", "reset_coords", "squeeze", "compute", "persist"):
        if name == "rename_axis" and not args and "columns" not in kwargs and "index" not in kwargs and not kwargs:
            return None
        return o
    if name in ("tolist", "to_list"):
        return o
    if name == "rename":
        cols = [k for k in kwargs if k in ("columns", "index") and not is_str(kwargs[k])]
        if cols and "index" in kwargs and o.op in ("idx",):
            return o
        if not cols:
            if args and a.op in ("closure",):
                return None
            return o
        if args:
            return None
        return mk("relabel", o, tuple((k, I.lam(kwargs[k], 1)) for k in sorted(cols)))
    if name in ("set_axis",):
        return None
    if name in ARITH and a is not None:
        fv = kwargs.get("fill_value")
        ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
        fa, fo = axes(a), axes(o)
        if fa is not None and fo is not None and len(fa) == 1 and len(fo) == 2 and fa <= fo and not contains(o, lambda t: t.op == "var"):
            # a column of values per snapshot must be aligned with the rows, one per asset with the columns
            rows = ax is not None and (ax is ZERO or ax is const("index") or ax is const("rows"))
            if rows != (fa == frozenset("t")):
                a = mk("misaligned", a)
        r = lift(lambda x, y: ARITH[name](x, y), unfull(o), unfull(a))
        if fv is not None:
            return mk("arith_fill", r, fv)
        return r
    if name == "pow" and a is not None:
        return power(o, a)
    if name in CMPM and a is not None:
        return lift(lambda x, y: cmp(CMPM[name], x, y), o, a)
    if name == "dot" and a is not None:
        return matmul(o, a)
    if name in ("isnull", "isna"):
        return mk_isnull(o)
    if name in ("notnull", "notna"):
        return e_not(mk_isnull(o))
    if name == "isin" and a is not None:
        return mk_isin(o, a)
    if name == "all":
        if args or red_kw(kwargs):
            return mk("allax", o, tuple(args), red_kw(kwargs))
        return mk_all(o) if o.op != "allax" else mk_all(o)
    if name == "any":
        if args or red_kw(kwargs):
            return e_not(mk("allax", e_not(o), tuple(args), red_kw(kwargs)))
        return mk_any(o)
    if name == "item" and not args:
        return o.args[0] if o.op == "list" and len(o.args) == 1 else o
    if name == "fillna":
        v = a if a is not None else kwargs.get("value")
        if v is None:
            return None
        return lift(lambda x, v: mk("fillna", x, v), o, v)
    if name == "abs":
        return mk("abs", o)
    if name == "clip":
        lo = kwargs.get("lower", kwargs.get("min", a if a is not None else NONE))
        hi = kwargs.get("upper", kwargs.get("max", args[1] if len(args) > 1 else NONE))
        return mk("clip", o, lo, hi)
    if name == "where" or name == "mask":
        if a is None:
            return None
        c = a
        if c.op == "closure":
            c = I.call(c, [o], {}, node)
        oth = args[1] if len(args) > 1 else kwargs.get("other")
        if name == "mask":
            c = e_not(c)
        if oth is None:
            return lift(lambda x, c: x if c is TRUE else mk("masked", x, c), o, c)
        return where(o, c, oth)
    if name in ("loc", "sel", "reindex", "isel", "take", "xs", "reindex_like"):
        return select_method(I, f, o, name, args, kwargs, node)
    if name == "get" and a is not None and o.op in ("dynamic", "static", "at", "group", "elem", "param", "attr"):
        if contains_term(I, a, o) is TRUE:
            return at(I, o, a)
        if o.op == "compstore":
            return comp_by_key(I, o.args[0], a)
        return mk("dictget", o, a, args[1] if len(args) > 1 else NONE)
    if name == "get" and o.op == "compstore":
        return comp_by_key(I, o.args[0], a)
    if name == "query" and a is not None:
        if is_str(a):
            m = query_mask(I, o, a.args[0])
            if m is not None:
                return at(I, o, m)
        elif a.op == "ite" and nleaves(a) <= MAX_LEAVES:
            return lift(lambda q: data_method(I, f, o, name, [q], kwargs, node) or mk("call", f, (q,), ()), a)
        elif a.op != "cat":
            return mk("at", o, (mk("query", a),))
    if name == "eval" and is_str(a):
        m = query_mask(I, o, a.args[0])
        if m is not None:
            return m
    if name in ("eval", "query") and a is not None and a.op == "cat":
        q, holes = with_holes(a)
        m = query_mask(I, o, q, holes)
        if m is not None:
            return m if name == "eval" else at(I, o, m)
    if name in ("intersection", "difference", "union") and a is not None:
        if a.op == "ite" and nleaves(a) <= MAX_LEAVES:
            return lift(lambda q: data_method(I, f, o, name, [q], kwargs, node), a)
        if o.op == "idx" and a.op == "idx" and o.args[0] is a.args[0]:
            m1, m2 = o.args[1], a.args[1]
            m = {"intersection": lambda: e_and(m1, m2), "difference": lambda: e_and(m1, e_not(m2)), "union": lambda: e_or(m1, m2)}[name]()
            return mk("idx", o.args[0], m)
        if name in ("intersection", "union"):
            return mk(name, *sorted((o, a)))
        if a.op in ("list", "set", "tuple") and not a.args:
            return o
        return mk("difference", o, a)
    if name == "append" and (o.op == "idx" or is_index_like(o)) and a is not None:
        return mk("append", o, a)
    if name == "get_loc" and a is not None:
        return mk("getloc", o, a)
    if name in ("sum", "zsum"):
        r = red_kw(kwargs)
        if args:
            r = r + (("axis", a),) if a is not ZERO else r
        if o.op == "groupby":
            return lin_by("gsum", o.args[0], *o.args[1:])
        if o.op == "rolling":
            return lin("rollsum", o.args[0], *o.args[1:])
        return lin("sum", o, r)
    if name in ("mean", "max", "min", "first", "last", "std", "median", "count", "nunique", "prod", "idxmax", "idxmin", "any", "all") and o.op == "groupby":
        return mk("g" + name, *o.args)
    if name in ("cumsum", "shift", "diff", "roll"):
        return lin(name, o, tuple(args), tuple(sorted((k, v) for k, v in kwargs.items() if k not in ("axis",) or v is not ZERO)))
    if name == "rolling":
        return mk("rolling", o, tuple(args), kwt(kwargs))
    if name == "groupby":
        by = a if a is not None else kwargs.get("by")
        lv = kwargs.get("level")
        ax = kwargs.get("axis")
        rest = []
        if by is not None and by.op == "closure":
            by = I.lam(by, 1)
        rest.append(by if by is not None else NONE)
        rest.append(lv if lv is not None else NONE)
        rest.append(ax if ax is not None and ax is not ZERO else NONE)
        return mk("groupby", o, *rest)
    if name in ("ffill", "bfill"):
        d = a if a is not None else kwargs.get("dim", NONE)
        return mk(name, o, d, kwargs.get("axis", NONE))
    if name in ("transpose",):
        return o
    if name == "astype":
        if a is not None and a.op == "ext" and a.args[0] in ("builtins.bool",):
            return e_not(cmp("eq", o, ZERO))
        return o
    if name == "pipe" and a is not None:
        return I.call(a, [o] + list(args[1:]), kwargs, node)
    if name == "items" and not args and not kwargs:
        return mk("items", o)
    if name == "iterrows":
        return mk("iterrows", o)
    if name == "itertuples":
        return mk("itertuples", o)
    if name == "keys" and not args:
        return mk("keys", o)
    if name == "values" and not args and o.op in ("compstore", "dynamic"):
        return mk("cvalues", o)
    if name in ("map", "apply", "transform", "agg", "aggregate", "applymap"):
        al = [I.lam(x, 1) for x in args]
        kl = {k: I.lam(v, 1) for k, v in kwargs.items()}
        if name == "map" and o.op in ("at", "idx", "call", "attr") and len(al) == 1 and not kl:
            return mk("fmap", o, al[0])
        if name in ("agg", "aggregate") and al and is_str(al[0]) and al[0].args[0] == "sum":
            return data_method(I, f, o, "sum", [], {}, node)
        return mk("call", mk("attr", o, "agg" if name == "aggregate" else name), tuple(al), kwt(kl))
    if name == "to_frame":
        return o
    if name == "drop_duplicates" and not args and not kwargs:
        return mk("unique", o)
    if name == "unique":
        return mk("unique", o, *args, *[v for k, v in kwargs.items() if k == "level"])
    if name == "equals" and a is not None and False:
        return None
    if name in ("sort_index", "sort_values", "sort"):
        return mk("sorted", o, tuple(args), kwt({k: v for k, v in kwargs.items() if k != "inplace"}))
    return None


def lin_by(op, x, *rest):
    if any(isinstance(r, T) and r.op == "ite" for r in rest):
        i = [i for i, r in enumerate(rest) if isinstance(r, T) and r.op == "ite"][0]
        if nleaves(rest[i]) <= 16:
            return lift(lambda r: lin_by(op, x, *rest[:i], r, *rest[i + 1:]), rest[i])
    return lin(op, x, *rest)


def select_method(I, f, o, name, args, kwargs, node):
    kw = dict(kwargs)
    fill = kw.pop("fill_value", None)
    method = kw.pop("method", None)
    drop = kw.pop("drop", None)
    level = kw.pop("level", None)
    axis = kw.pop("axis", None)
    kw.pop("copy", None)
    if method is not None:
        return None
    r = o
    keys = []
    for a in args:
        if a.op == "dict":
            keys.extend(v for _, v in a.args[0])
        else:
            keys.append(a)
    keys.extend(kw.values())
    if name == "reindex_like":
        return mk("reindex_like", o, *keys)
    if name in ("isel", "take"):
        keys = [mk("pos", k) for k in keys]
    if name == "xs":
        return mk("xs", o, *keys, *( [level] if level is not None else []))
    for k in keys:
        if level is not None:
            k = mk("bylevel", k, level)
        r = at(I, r, k)
    if fill is not None:
        r = lift(lambda x: mk("reindexfill", x, fill), r)
    return r


def generic_call(I, f, args, kwargs, node, stmt):
    args = [I.lam(a, 2) if a.op in ("closure", "fn") else a for a in args]
    kwargs = {k: (I.lam(v, 2) if v.op in ("closure", "fn") else v) for k, v in kwargs.items()}
    if f.op == "at" and f.args[0].op in ("static", "dynamic") and len(f.args[1]) == 1 and is_const(f.args[1][0]) and isinstance(f.args[1][0].args[0], str) and \
            node is not None and isinstance(node.func, ast.Attribute):
        f = mk("attr", f.args[0], f.args[1][0].args[0])  # a column is not called: a method of the table
    # in-place mutators on network-rooted objects
    if f.op == "attr" and is_path(f.args[0]) and (f.args[1] in MUTATORS and (f.args[1] not in VALUELESS or node is None or getattr(node, "_vf_stmt", False)) or ("inplace" in kwargs and kwargs["inplace"] is TRUE)):
        I.effect("store", {"obj": f.args[0], "key": mk("method", f.args[1]), "val": mk("args", tuple(args), kwt(kwargs))}, node)
    t = mk("call", f, tuple(args), kwt(kwargs))
    return t


def expr_statement(I, st, v):
    """effect of a call used as a statement"""
    if v is NONE:
        return
    for g, x in (leaves(v) if v.op == "ite" and nleaves(v) <= 8 else [(TRUE, v)]):
        if x.op in ("call",):
            c = x.args[0]
            if c.op == "attr" and c.args[1] in MUTATORS and is_path(c.args[0]):
                continue  # recorded
            if c.op == "attr" and is_path(c.args[0]) and dict(x.args[2]).get("inplace") is TRUE:
                continue  # recorded
            if c.op == "attr" and c.args[1] in ("insert", "drop", "delete", "union", "difference") and c.args[0].op == "attr" and c.args[0].args[1] in ("index", "columns"):
                continue  # an index is immutable: the result is thrown away
            fr = I.stack[-1]
            g0 = fr.G
            fr.G = b_and(g0, g)
            I.effect("call", {"call": x}, st)
            fr.G = g0

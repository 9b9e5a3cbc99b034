"""Compare the effects of an implementation with those of its reference model.

Effects are grouped by what they act on (a variable name, a constraint name, a location); alternatives under
different gates are merged into one decision diagram per field.  A difference counts as a violation only when
the implementation stays within the constructs the normal form models (or that the reference itself uses);
otherwise the obligation is *undecided* and reported as such.
"""
from __future__ import annotations

from .terms import *
from .terms import T, _subterms
from . import norm

MISSING = mk("missing")
DEFAULTS = {
    "var": {"lower": const(float("-inf")), "upper": const(float("inf")), "mask": NONE, "binary": FALSE, "integer": FALSE,
            "coords": NONE},
    "con": {"mask": NONE, "sense": const("="), "expr": ZERO},
}

# heads whose meaning the normal form fixes: two different normal forms are different functions
CORE = set("""num const poly ite at static dynamic dense activity active idx elem var model net param cobj lt le eq ne and or
not isnull notnull isin in empty all any shift roll rollsum sum gsum ind where guard fillna clip slice pos getloc
unique cols list tuple set dict glist comp concat prim cat attr_snap range len full upd astype abs round min max mean
cumsum ffill bfill diff missing first last group gkey groupby iterrows items keys zip enumerate stack dictof reindex
allax anyax sumover multiindex isinstance repeat last_ pow inv0 linopy_model vars nunique prod missing csv lam bound
columns shape std median quantile sqrt exp log sin cos tan real imag conj astype matmul transpose dictget con_ref mod misaligned anyof difference intersection union
ext fmap axisname lookup param_default T_ objective fn cls closure bound_method netfn compstore opt_default elemval masked setalgebra same hasattr max2 min2""".split())

SAFE_ATTRS = set("""snapshots snapshot_weightings investment_periods investment_period_weightings index columns values T vars
data coeffs const columns name names sub_networks buses_t status dims coords C objective parameters solution dual attrs""".split())


def generic_heads(t):
    """constructs without a modelled meaning"""
    out = set()
    types = set()
    for x in walk(t):
        if x.op == "isinstance":
            types |= {z.key for a in x.args[1:] if isinstance(a, T) for z in walk(a)}
    for x in walk(t):
        if x.key in types and x.op == "ext":
            continue
        if x.op == "call":
            f = x.args[0]
            if f.op == "attr":
                out.add("." + f.args[1] + "()")
            elif f.op == "ext":
                out.add(f.args[0] + "()")
            else:
                out.add("call:" + f.op)
        elif x.op == "attr":
            if x.args[1] not in SAFE_ATTRS:
                out.add("." + x.args[1])
        elif x.op == "ext":
            out.add(x.args[0])
        elif x.op not in CORE:
            out.add("<" + x.op + ">")
    return out


# library methods that certainly are not neutral: introducing or dropping them changes the value
DISTINCT = {".abs()", ".round()", ".clip()", ".fillna()", ".max()", ".min()", ".mean()", ".cumsum()", ".diff()", ".any()", ".all()",
            "numpy.abs()", "numpy.sign()", ".prod()", ".std()", ".median()", ".first()", ".last()", ".head()", ".tail()", ".dropna()",
            ".cumprod()", ".rolling()", ".interpolate()", ".floordiv()", ".count()", "<gmean>", "<gmax>", "<gmin>", "<gany>", "<gall>", "<gfirst>", "<glast>", "<gcount>", "<gprod>"}
DISTINCT |= {h[:-2] for h in DISTINCT if h.endswith("()")}


GX: set = set()  # what left a difference undecided (for development)
REF_HEADS: set = set()  # constructs the reference of the current surface uses anywhere


def set_reference(values):
    REF_HEADS.clear()
    seen = set()
    for v in values:
        if v.key not in seen:
            seen.add(v.key)
            REF_HEADS.update(generic_heads(v))


def diff_pairs(a, b, out=None, budget=None):
    """minimal differing sub-term pairs of two normal forms"""
    out = [] if out is None else out
    budget = budget if budget is not None else [400]
    if a is b or budget[0] <= 0:
        return out
    budget[0] -= 1
    if a.op == "poly" or b.op == "poly":
        da, db = dict(_pd(a)), dict(_pd(b))
        ua = {m: c for m, c in da.items() if db.get(m) != c}
        ub = {m: c for m, c in db.items() if da.get(m) != c}
        if len(ua) == 1 and len(ub) == 1:
            (m1, c1), = ua.items()
            (m2, c2), = ub.items()
            if c1 == c2:
                f1 = [x for x in m1 if x not in m2]
                f2 = [x for x in m2 if x not in m1]
                if len(f1) == 1 and len(f2) == 1 and f1[0][1] == f2[0][1]:
                    return diff_pairs(f1[0][0], f2[0][0], out, budget)
        if len(ua) > 1 or len(ub) > 1:
            # pair summands mentioning the same variables
            sa, sb = {}, {}
            for d, sg in ((ua, sa), (ub, sb)):
                for m, c in d.items():
                    sg.setdefault(_sig(m), []).append((m, c))
            if len(sa) > 1 or len(sb) > 1:
                for k in sorted(set(sa) | set(sb)):
                    xa, xb = _from(dict(sa.get(k, []))), _from(dict(sb.get(k, [])))
                    if xa is MISSING or xb is MISSING:
                        out.append((xa, xb))
                    else:
                        diff_pairs(xa, xb, out, budget)
                return out
        out.append((_from(ua), _from(ub)))
        return out
    if a.op == b.op and a.op == "ite":
        if a.args[0] is b.args[0]:
            diff_pairs(a.args[1], b.args[1], out, budget)
            diff_pairs(a.args[2], b.args[2], out, budget)
            return out
    if a.op == "ite" or b.op == "ite":
        # align both diagrams on their common top variable
        tops = [x.args[0] for x in (a, b) if x.op == "ite"]
        c = min(tops, key=lambda x: x.key)
        a1, a0 = (a.args[1], a.args[2]) if a.op == "ite" and a.args[0] is c else (a, a)
        b1, b0 = (b.args[1], b.args[2]) if b.op == "ite" and b.args[0] is c else (b, b)
        if not (a.op == "ite" and a.args[0] is c) or not (b.op == "ite" and b.args[0] is c):
            # c is tested on one side only
            out.append((mk("cond", c) if a.op == "ite" and a.args[0] is c else MISSING,
                        mk("cond", c) if b.op == "ite" and b.args[0] is c else MISSING))
        diff_pairs(a1, b1, out, budget)
        diff_pairs(a0, b0, out, budget)
        return out
    if a.op == b.op and a.op not in ("num", "const", "param", "ext") and len(a.args) == len(b.args):
        sa, sb = list(_subterms(a.args)), list(_subterms(b.args))
        flat_a, flat_b = _flat(a.args), _flat(b.args)
        if len(sa) == len(sb) and flat_a == flat_b:
            if a.op in ("and", "or", "at", "set"):
                xa = [x for x in sa if x not in sb]
                xb = [x for x in sb if x not in sa]
            else:
                xa = [x for x, y in zip(sa, sb) if x is not y]
                xb = [y for x, y in zip(sa, sb) if x is not y]
            if len(xa) == len(xb) and len(xa) <= 2:
                for x, y in zip(xa, xb):
                    diff_pairs(x, y, out, budget)
                return out
        if a.op in ("and", "or"):
            xa = [x for x in sa if x not in sb]
            xb = [x for x in sb if x not in sa]
            out.append((mk(a.op, *xa) if xa else MISSING, mk(b.op, *xb) if xb else MISSING))
            return out
    out.append((a, b))
    return out


def _flat(args):
    out = []
    for a in args:
        if isinstance(a, T):
            out.append("T")
        elif isinstance(a, tuple):
            out.append(tuple(_flat(a)))
        else:
            out.append(a)
    return out


def _sig(m):
    """what a summand is about: its variables, or the data it mentions"""
    vs = sorted({show(x) for f, e in m for x in walk(f) if x.op == "var"})
    if not vs:
        vs = sorted({show(x) for f, e in m for x in walk(f) if x.op in ("static", "dense", "dynamic")})
    return ",".join(vs)


def _pd(t):
    from .terms import _poly_dict
    return _poly_dict(t)


def _from(d):
    from .terms import _from_poly
    return _from_poly(d) if d else MISSING


def spread(t, limit=7):
    """turn guarded summands guard(x, c) of (conditional) sums into conditionals when there are few conditions"""
    conds = []

    def scan(x):
        if x.op == "ite":
            scan(x.args[1])
            scan(x.args[2])
        elif x.op == "poly":
            for m, c in x.args[0]:
                for f, e in m:
                    if f.op == "guard" and f.args[1] not in conds:
                        conds.append(f.args[1])
        elif x.op == "guard" and x.args[1] not in conds:
            conds.append(x.args[1])

    scan(t)
    if not conds or len(conds) > limit:
        return t

    def one(x):
        out = ZERO
        for m, c in _pd(x).items():
            term = mk("num", c)
            for f, e in m:
                if f.op == "guard" and e == 1:
                    term = mul(term, ite(f.args[1], f.args[0], ZERO))
                else:
                    term = mul(term, _from({((f, e),): 1}))
            out = add(out, term)
        return out

    def rec(x):
        if x.op == "ite":
            return ite(mk("ite", x.args[0], TRUE, FALSE), rec(x.args[1]), rec(x.args[2]))
        if x.op in ("poly", "guard"):
            return one(x)
        return x

    return rec(t)


_DEEP: dict = {}


def deep(t):
    """spread guarded summands at every level of a term (both sides of a comparison get the same treatment)"""
    if t.key in _DEEP:
        return _DEEP[t.key]
    if not contains(t, lambda y: y.op == "guard"):
        _DEEP[t.key] = t
        return t
    def rs(a):
        if isinstance(a, T):
            return deep(a)
        if isinstance(a, tuple):
            return tuple(rs(y) for y in a)
        return a
    if t.op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            p = mk("num", c)
            for b, e in m:
                nb = deep(b) if b.op != "guard" else mk("guard", *[rs(a) for a in b.args])
                p = mul(p, _from({((nb, e),): 1}) if nb.op != "ite" else (power(nb, const(e)) if e >= 0 else div(ONE, power(nb, const(-e)))))
            r = add(r, p)
        r = spread(r)
    elif t.op == "ite":
        c = rs(t.args[0])
        r = ite(c if c.op in ("const", "ite") else mk("ite", c, TRUE, FALSE), rs(t.args[1]), rs(t.args[2]))
    else:
        r = mk(t.op, *[rs(a) for a in t.args])
        if t.op == "guard":
            r = spread(r)
    _DEEP[t.key] = r
    return r


def under(t, g):
    """simplify the conditions of guarded summands knowing that g holds"""
    memo = {}

    def sub(a, g):
        if isinstance(a, T):
            return rec(a, g)
        if isinstance(a, tuple):
            return tuple(sub(y, g) for y in a)
        return a

    def rec(x, g):
        k = (id(x), id(g))
        if k in memo:
            return memo[k]
        r = x
        if x.op == "ite":
            x = constrain(x, g)
            if x.op == "ite":
                c = mk("ite", x.args[0], TRUE, FALSE)
                r = ite(c, rec(x.args[1], b_and(g, c)), rec(x.args[2], b_and(g, b_not(c))))
            else:
                r = rec(x, g)
        elif x.op in ("poly", "guard"):
            if contains(x, lambda y: y.op in ("guard", "ite")):
                out = ZERO
                for m, c in _pd(x).items():
                    term = mk("num", c)
                    for f, e in m:
                        if f.op == "guard" and e == 1:
                            cc = constrain(f.args[1], g)
                            term = mul(term, norm.guard_num(cc, rec(f.args[0], b_and(g, cc))))
                        elif f.op == "guard":
                            term = mul(term, _from({((f, e),): 1}))
                        else:
                            f2 = rec(f, g)
                            term = mul(term, _from({((f, e),): 1}) if f2 is f else power(f2, const(e)) if e >= 0 else div(ONE, power(f2, const(-e))))
                    out = add(out, term)
                r = out
        elif x.op not in ("lambda",) and contains(x, lambda y: y.op in ("guard", "ite")):
            r = mk(x.op, *[sub(a, g) for a in x.args])
        memo[k] = r
        return r

    return rec(t, g)


def classify(a, b):
    """'same' | 'violation' | 'undecided'  for implementation value a, reference value b, plus the pairs"""
    if a is b:
        return "same", []
    a, b = spread(a), spread(b)
    if a is b:
        return "same", []
    a, b = deep(a), deep(b)
    if a is b:
        return "same", []
    a, b = align_exceptions(a, b)
    if a is b:
        return "same", []
    pairs = diff_pairs(a, b)
    if not pairs:
        return "same", []
    und = False
    ref_heads = generic_heads(b) | REF_HEADS
    known = {z.key for z in walk(b) if z.op == "exc"}
    # where an exception may come from is only modelled roughly: such a difference decides nothing
    mine = {z.key for z in walk(a) if z.op == "exc"}
    rest = [(x, y) for x, y in pairs if all(z.op != "exc" or z.key in known for z in walk(x))
            and (mine <= known or all(z.op != "exc" or z.key in mine for z in walk(y)))]
    if not rest:
        return "undecided", pairs
    for x, y in rest:
        gx = generic_heads(x) - ref_heads - DISTINCT
        gx = {h for h in gx if h != "<cond>"}
        if any(z.op == "opaque" for z in walk(x)):
            gx.add("<opaque>")
        if gx:
            und = True
            GX.update(gx)
    return ("undecided" if und else "violation"), pairs


def align_exceptions(a, b):
    """'the block raises X' is one unknown, however the block computes its values; the values are compared where they are used"""
    ea = {z.key: z for z in walk(a) if z.op == "exc"}
    eb = {z.key: z for z in walk(b) if z.op == "exc"}
    m = {}
    for ty in {z.args[0].key for z in ea.values()}:
        xs = [z for k, z in ea.items() if k not in eb and z.args[0].key == ty]
        ys = [z for k, z in eb.items() if k not in ea and z.args[0].key == ty]
        if len(xs) == len(ys) == 1:
            m[id(xs[0])] = ys[0]
    return (substitute(a, m) if m else a), b


def show_pair(p, w=300):
    x, y = p
    return f"code has {clip(show(x), w)} where the model requires {clip(show(y), w)}"


def clip(s, w):
    return s if len(s) <= w else s[: w - 1] + "…"


# ------------------------------------------------------------------ grouping
class Group:
    __slots__ = ("key", "gate", "fields", "loops", "sites", "kind", "n")

    def __init__(self, key, kind):
        self.key = key
        self.kind = kind
        self.gate = FALSE
        self.fields = {}
        self.loops = None
        self.sites = []
        self.n = 0


def effect_key(e):
    if e.kind in ("var", "con"):
        return (e.kind, e.data.get("name", MISSING))
    if e.kind == "store":
        return ("store", e.data["obj"], e.data["key"])
    if e.kind == "raise":
        return ("raise", e.data.get("exc", MISSING))
    if e.kind == "call":
        return ("call", e.data["call"])
    return (e.kind,) + tuple(v for k, v in sorted(e.data.items()) if isinstance(v, T))


def row_sets(e):
    out = {}
    for v in e.data.values():
        if isinstance(v, T):
            for x in walk(v):
                if x.op == "idx":
                    out[x.key] = x
    return out


def default_missing(kind, f, v):
    d = DEFAULTS.get(kind, {}).get(f)
    if d is None:
        return v
    return lift(lambda x: d if x.op == "missing" else x, v)


def call_cases(c, gate):
    """[(condition, call)] with the alternatives of the arguments as alternative calls"""
    if c.op == "call":           # the positional arguments
        return [(g, mk("call", c.args[0], x.args, *c.args[2:])) for g, x in call_cases(mk("prim", *c.args[1]), gate)]
    out = [(TRUE, ())]
    for a in c.args:
        if isinstance(a, T) and a.op == "ite" and len(out) * nleaves(a) <= 6:
            new = []
            for g, xs in out:
                for ga, v in leaves(a):
                    h = b_and(g, ga)
                    if b_and(h, gate) is not FALSE:
                        new.append((h, xs + (v,)))
            out = new
        else:
            out = [(g, xs + (a,)) for g, xs in out]
    return [(g, mk(c.op, *xs)) for g, xs in out]


def group(effects, kinds=("var", "con", "store", "raise", "call")):
    out = {}
    for e0 in effects:
      if e0.kind not in kinds:
          continue
      cases = [(TRUE, e0)]
      if e0.kind == "call" and any(isinstance(a, T) and a.op == "ite" for a in (e0.data["call"].args if e0.data["call"].op == "prim" else e0.data["call"].args[1] if e0.data["call"].op == "call" else ())):
          cases = [(g, e0.variant({**e0.data, "call": c})) for g, c in call_cases(e0.data["call"], e0.gate)]
      for gc, e in cases:
        nm = e.data.get("name")
        alts = [(gc, nm)]
        if isinstance(nm, T) and nm.op == "ite":
            alts = leaves(nm)
        for g0, name in alts:
            if isinstance(nm, T):
                k = (e.kind, name)
            else:
                k = effect_key(e)
            gate = b_and(e.gate, g0)
            if gate is FALSE:
                continue
            k = k + (e.loops,)
            g = out.get(k)
            if g is None:
                g = out[k] = Group(k, e.kind)
                g.loops = e.loops
            fields = dict(DEFAULTS.get(e.kind, {}))
            for f, v in e.data.items():
                if isinstance(v, T) and f != "name":
                    fields[f] = default_missing(e.kind, f, constrain(v, gate) if g0 is not TRUE else v)
            if g.n == 0:
                g.fields = fields
            else:
                # later stores overwrite earlier ones
                for f in set(g.fields) | set(fields):
                    g.fields[f] = ite(gate, fields.get(f, MISSING), g.fields.get(f, MISSING))
            g.gate = b_or(g.gate, gate)
            g.sites.append(f"{e.site} ({e.func})")
            g.n += 1
    return out


def ranged(v):
    """label sets in v, apart from those it only asks whether they are empty"""
    seen, stack, out = set(), [v], []
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T) and id(x) not in seen:
            seen.add(id(x))
            if x.op == "idx":
                out.append(x)
            if x.op == "empty" and x.args[0].op == "idx" or x.op in ("len", "any", "all", "forall", "exists", "sum", "max", "min"):
                continue
            stack.extend(x.args)
    return out


def vacuous(g, fields, k=()):
    """set empty(S) to False for the label sets the rows range over: with S empty there are no rows"""
    keys = {}
    for v in fields.values():
        for x in ranged(v):
            keys[x.key] = x
            whole = mk("idx", x.args[0], TRUE)
            keys[whole.key] = whole
    if k and k[0] == "store" and k[1].op == "static" and k[2].op == "tuple":
        x = mk("idx", k[1], k[2].args[0])
        keys[x.key] = x
    if not keys:
        return g, fields
    memo = {}

    def args(a):
        if isinstance(a, T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(args(y) for y in a)
        return a

    def rec(t):
        if id(t) in memo:
            return memo[id(t)]
        if t.op in ("poly", "guard"):
            if not contains(t, lambda y: y.op in ("guard", "ite")):
                memo[id(t)] = t
                return t
            out = ZERO
            for m, co in _pd(t).items():
                term = mk("num", co)
                for f, e in m:
                    if f.op == "guard" and e == 1:
                        term = mul(term, norm.guard_num(rec(f.args[1]), rec(f.args[0])))
                    else:
                        f2 = rec(f) if f.op != "guard" else f
                        term = mul(term, _from({((f, e),): 1}) if f2 is f else power(f2, const(e)) if e >= 0 else div(ONE, power(f2, const(-e))))
                out = add(out, term)
            memo[id(t)] = out
            return out
        if t.op != "ite":
            r = t
            if contains(t, lambda y: y.op in ("guard", "ite")):
                r = mk(t.op, *[args(a) for a in t.args])
            memo[id(t)] = r
            return r
        c, a, b = t.args
        if c.op == "empty" and c.args[0].key in keys:
            r = rec(b)
        elif c.op == "all" and _over(c, keys):
            r = ite(mk("ite", c, TRUE, FALSE), rec(a), rec(b))
        else:
            r = ite(mk("ite", c, TRUE, FALSE), rec(a), rec(b))
        memo[id(t)] = r
        return r

    return rec(g), {f: rec(v) for f, v in fields.items()}


def _over(c, keys):
    return False


class Result:
    def __init__(self):
        self.obligations = []  # (id, status, detail, sites)

    def add(self, oid, status, detail="", sites=()):
        self.obligations.append((oid, status, detail, list(sites)))

    def count(self, st):
        return sum(1 for o in self.obligations if o[1] == st)


def name_of(k):
    n = k[1]
    if k[0] in ("var", "con"):
        return f"{'variable' if k[0] == 'var' else 'constraint'} {show(n)}"
    if k[0] == "store":
        return f"{show(k[1])}[{show(k[2])}]"
    return " ".join(show(x) if isinstance(x, T) else str(x) for x in k if x != ())


def deep_key(k):
    def rs(a):
        return deep(a) if isinstance(a, T) else tuple(rs(y) for y in a) if isinstance(a, tuple) else a
    return rs(tuple(k))


def compare_groups(impl, spec, select, res, check_extra=True, ignore_fields=()):
    """select(kind, key) -> bool"""
    left = {deep_key(k): k for k in impl if k not in spec}
    if left:
        impl = dict(impl)
        for k in spec:
            if k not in impl and deep_key(k) in left:
                impl[k] = impl.pop(left[deep_key(k)])
    ok = survives(impl, spec)
    keys = [k for k in spec if select(k)] + [k for k in impl if select(k) and k not in spec]
    for k in keys:
        a, b = impl.get(k), spec.get(k)
        nm = clip(name_of(k), 160)
        if a is None:
            # perhaps only the loop structure differs
            alt = [x for x in impl if x[:-1] == k[:-1] and x not in spec]
            if alt and k[0] in ("raise", "warn") and all(len(x[-1]) == len(k[-1]) and other_collection(x[-1], k[-1]) for x in alt):
                res.add(nm, "violation", f"it is done for each of {clip(show_loops(alt[0][-1]), 200)} where the model requires {clip(show_loops(k[-1]), 200)}", impl[alt[0]].sites)
                continue
            if alt:
                res.add(nm, "undecided", f"iteration structure differs: {clip(show_loops(alt[0][-1]), 200)}", impl[alt[0]].sites)
                continue
            amb = [x for x in impl if x not in spec and x[0] == k[0] and (x[1].op not in ("const", "cat"))] if k[0] in ("var", "con") else []
            if amb:
                res.add(nm, "undecided", "no effect with this name; effects with unresolved names exist", impl[amb[0]].sites)
                continue
            res.add(nm, "violation", f"{nm} is required by the model but the code never creates it")
            continue
        if b is None:
            if not check_extra:
                continue
            alt = [x for x in spec if x[:-1] == k[:-1]]
            if alt:
                continue
            gh = set()
            for v in a.fields.values():
                gh |= generic_heads(v)
            if k[0] in ("var", "con") and k[1].op not in ("const", "cat"):
                res.add(nm, "undecided", "effect with unresolved name", a.sites)
                continue
            res.add(nm, "violation", f"{nm} is not part of the model", a.sites)
            continue
        ga, fa = vacuous(a.gate, a.fields, k)
        gb, fb = vacuous(b.gate, b.fields, k)
        alive = ok if k[0] != "raise" else survives(impl, spec, k) if ga is not gb else TRUE
        if ga is not gb and alive is not TRUE:
            na, nb = vacuous(b_and(a.gate, alive), a.fields, k)[0], vacuous(b_and(b.gate, alive), b.fields, k)[0]
            if na is nb and na is not FALSE:
                ga = gb = na
        st, pairs = classify(ga, gb)
        if st != "same":
            res.add(nm, st, f"condition under which it is created differs: {show_pair(pairs[0])}", a.sites)
            continue
        bad = False
        for f in sorted(set(fa) | set(fb)):
            if f in ignore_fields:
                continue
            va, vb = constrain(fa.get(f, MISSING), ga), constrain(fb.get(f, MISSING), gb)
            if f == "mask":
                va, vb = [lift(lambda x: NONE if x is TRUE else x, v) for v in (va, vb)]
            if f == "coords":
                va, vb = [lift(lambda x: mk("list", *x.args) if x.op == "tuple" else x, v) for v in (va, vb)]
            if va is not vb:
                va, vb = under(va, ga), under(vb, gb)
            st, pairs = classify(va, vb)
            if st != "same":
                res.add(nm, st, f"{f}: " + "; ".join(show_pair(p) for p in pairs[:3]), a.sites)
                bad = True
                break
        if not bad:
            res.add(nm, "discharged", "", a.sites)


def other_collection(xs, ys):
    """do the loops certainly range over different collections?"""
    ways = [classify(x, y)[0] for x, y in zip(xs, ys)]
    return "undecided" not in ways and "violation" in ways


def survives(impl, spec, but=None):
    """condition under which neither side raises (anything else): what would happen otherwise makes no difference"""
    g = TRUE
    for k in impl:
        if k[0] == "raise" and k in spec and not k[-1] and k is not but and k != but:
            g = b_and(g, b_not(b_and(impl[k].gate, spec[k].gate)))
    return TRUE if g is FALSE else g


def show_loops(l):
    return ", ".join(show(x) for x in l) if l else "(no loop)"

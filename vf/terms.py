"""Hash-consed value-number terms with algebraic normal forms.

A term is the value number of an expression of the analysed source.  Two
expressions with the same term compute the same value under the algebraic laws
built in here (commutative/associative/distributive arithmetic, canonical
decision diagrams for conditionals, AC boolean lattice).  Nothing is executed:
terms only ever describe source expressions.
"""
from __future__ import annotations

import hashlib
from fractions import Fraction
from functools import lru_cache

_TABLE: dict = {}


class T:
    __slots__ = ("op", "args", "key", "size", "flags")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.key < o.key


F_ITE = 1  # contains an unlifted ite
F_OPAQUE = 2  # contains an opaque (not understood) construct


def _tag(a):
    if isinstance(a, T):
        return "T" + a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_tag(x) for x in a) + ")"
    return type(a).__name__[0] + repr(a)


def mk(op, *args):
    k = (op, args, tuple(type(a) for a in args) if op == "const" else None)
    t = _TABLE.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.key = hashlib.sha1((op + "|" + _tag(args)).encode()).hexdigest()[:20]
    size = 1
    flags = F_OPAQUE if op == "opaque" else 0
    for a in _subterms(args):
        size += a.size
        flags |= a.flags
    t.size = size
    t.flags = flags
    _TABLE[k] = t
    return t


def _subterms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _subterms(a)


def subterms(t):
    """direct sub terms"""
    return list(_subterms(t.args))


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        stack.extend(_subterms(x.args))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ------------------------------------------------------------------ constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", v)
    if isinstance(v, (int, float, Fraction)):
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return mk("const", v) if v == v else mk("ext", "nan")
            f = Fraction(repr(v)) if "e" not in repr(v) else Fraction(v).limit_denominator(10**15) if abs(v) >= 1e-12 else Fraction(v)
            return mk("num", f)
        return mk("num", Fraction(v))
    if isinstance(v, complex):
        return mk("const", v)
    raise TypeError(v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op in ("const", "num")


def cval(t):
    if t.op == "num":
        f = t.args[0]
        return int(f) if f.denominator == 1 else float(f)
    return t.args[0]


def is_str(t):
    return t.op == "const" and isinstance(t.args[0], str)


def is_num(t):
    return t.op == "num"


# --------------------------------------------------- decision diagrams (ITE)
_ITE_CACHE: dict = {}
MAX_LEAVES = 400


def _top(f):
    return f.args[0] if f.op == "ite" else None


def _cof(f, c):
    if f.op == "ite" and f.args[0] is c:
        return f.args[1], f.args[2]
    return f, f


APART = {"builtins.str", "builtins.int", "builtins.float", "builtins.list", "builtins.dict", "builtins.tuple", "builtins.set", "pandas.Series", "pandas.DataFrame",
         "pypsa.components.abstract.Components", "pypsa.networks.Network", "pypsa.networks.SubNetwork"}


def _named(c):
    """(x, 'name') of the condition x == 'name', (kind of x, class) of being an instance of one of several classes without common instances"""
    if c.op == "isinstance" and c.args[1].op in ("ext", "cls") and c.args[1].args[0] in APART:
        return mk("kind", c.args[0]), c.args[1]
    if c.op == "eq" and len(c.args) == 2:
        for i in (0, 1):
            if is_str(c.args[i]) and not is_str(c.args[1 - i]):
                return c.args[1 - i], c.args[i]
    return None


_ONE_CACHE: dict = {}


def _only(f, x, name):
    """f when x is that name: comparisons of x with other names are false"""
    if f.op != "ite":
        return f
    k = (id(f), id(x), id(name))
    r = _ONE_CACHE.get(k)
    if r is None:
        c = f.args[0]
        y = _named(c)
        if y is not None and y[0] is x:
            r = _only(f.args[1], x, name) if y[1] is name else _only(f.args[2], x, name)
        else:
            a, b = _only(f.args[1], x, name), _only(f.args[2], x, name)
            r = f if a is f.args[1] and b is f.args[2] else a if a is b else mk("ite", c, a, b)
        r = _ONE_CACHE[k] = (r, f, x, name)
    return r[0]


def _atom_ite(c, a, b):
    if a is b:
        return a
    if a.op == "ite":
        y = _named(c)
        if y is not None:
            a = _only(a, *y)
            if a is b:
                return a
    return mk("ite", c, a, b)


def ite(f, g, h):
    """f: boolean diagram (TRUE/FALSE leaves, atoms as conditions)."""
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if f.op != "ite":
        f = mk("ite", f, TRUE, FALSE)
    k = (id(f), id(g), id(h))
    r = _ITE_CACHE.get(k)
    if r is not None:
        return r[0]
    tops = [x for x in (_top(f), _top(g), _top(h)) if x is not None]
    c = min(tops, key=lambda x: x.key)
    f1, f0 = _cof(f, c)
    g1, g0 = _cof(g, c)
    h1, h0 = _cof(h, c)
    r = _atom_ite(c, ite(f1, g1, h1), ite(f0, g0, h0))
    _ITE_CACHE[k] = (r, f, g, h)
    return r


def b_not(f):
    return ite(f, FALSE, TRUE)


def b_and(f, g):
    return ite(f, g, FALSE)


def b_or(f, g):
    return ite(f, TRUE, g)


def constrain(f, c):
    """f simplified under the assumption that boolean diagram c holds."""
    if c is TRUE or f.op != "ite":
        return f
    if c is FALSE:
        return f
    k = (id(f), id(c))
    r = _CON_CACHE.get(k)
    if r is None:
        r = _CON_CACHE[k] = (_constrain(f, c), f, c)
    return r[0]


_CON_CACHE: dict = {}


def _constrain(f, c):
    if c.op != "ite":
        c = mk("ite", c, TRUE, FALSE)
    tf, tc = _top(f), _top(c)
    v = tf if tc is None or tf.key <= tc.key else tc
    f1, f0 = _cof(f, v)
    c1, c0 = _cof(c, v)
    if c1 is FALSE:
        return constrain(f0, c0)
    if c0 is FALSE:
        return constrain(f1, c1)
    if v is not tf:
        # f does not depend on v: assume the disjunction of both cofactors
        return constrain(f, b_or(c1, c0))
    return _atom_ite(v, constrain(f1, c1), constrain(f0, c0))


def leaves(t, gate=TRUE):
    """(gate, value) pairs of an ite diagram"""
    if t.op != "ite":
        return [(gate, t)]
    c, a, b = t.args
    ca = mk("ite", c, TRUE, FALSE)
    return leaves(a, b_and(gate, ca)) + leaves(b, b_and(gate, b_not(ca)))


_NL: dict = {}


def nleaves(t):
    if t.op != "ite":
        return 1
    r = _NL.get(t.key)
    if r is None:
        r = nleaves(t.args[1]) + nleaves(t.args[2])
        _NL[t.key] = r
    return r


def lift(fn, *xs):
    """apply fn leaf-wise over ite arguments, if small enough"""
    if not any(x.op == "ite" for x in xs):
        return fn(*xs)
    tot = 1
    for x in xs:
        tot *= nleaves(x)
        if tot > MAX_LEAVES:
            return fn(*xs)
    memo = {}

    def rec(ys):
        kk = tuple(id(y) for y in ys)
        if kk in memo:
            return memo[kk]
        tops = [y.args[0] for y in ys if y.op == "ite"]
        if not tops:
            r = fn(*ys)
        else:
            c = min(tops, key=lambda x: x.key)
            r1 = rec(tuple(_cof(y, c)[0] for y in ys))
            r0 = rec(tuple(_cof(y, c)[1] for y in ys))
            if r1 is r0:
                r = r1
            else:
                r = ite(mk("ite", c, TRUE, FALSE), r1, r0)
        memo[kk] = r
        return r

    return rec(tuple(xs))


# ------------------------------------------------------------------ arithmetic
def _poly_dict(t):
    """term -> {monomial: coeff}; monomial = tuple((term, exp))"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "full":
        return _poly_dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: (_tag(mc[0]), mc[1])))
    return mk("poly", items)


def _add2(a, b):
    if a.op == "const" or b.op == "const":
        if is_str(a) and is_str(b):
            return const(a.args[0] + b.args[0])
        if a.op == "const" and isinstance(a.args[0], bool):
            a = const(int(a.args[0]))
        if b.op == "const" and isinstance(b.args[0], bool):
            b = const(int(b.args[0]))
    if (is_str(a) or a.op == "cat") or (is_str(b) or b.op == "cat"):
        return cat([a, b])
    if a.op == b.op and a.op in ("list", "tuple"):
        return mk(a.op, *(a.args + b.args))
    if a.op in ("list", "tuple", "concat", "comp") and b.op in ("list", "tuple", "concat", "comp"):
        return concat([a, b])
    d = _poly_dict(a)
    for m, c in _poly_dict(b).items():
        d[m] = d.get(m, 0) + c
    return _from_poly(d)


def concat(parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out.extend(p.args)
        elif p.op in ("list", "tuple") and not p.args:
            continue
        elif out and out[-1].op == "list" and p.op == "list":
            out[-1] = mk("list", *(out[-1].args + p.args))
        else:
            out.append(mk("list", *p.args) if p.op == "tuple" else p)
    if len(out) == 0:
        return mk("list")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def add(a, b):
    return lift(_add2, a, b)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = {}
    for t, e in m1 + m2:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda te: (te[0].key, te[1])))


def _mul2(a, b):
    if a.op == "const" and isinstance(a.args[0], bool):
        a = const(int(a.args[0]))
    if b.op == "const" and isinstance(b.args[0], bool):
        b = const(int(b.args[0]))
    if a.op in ("list", "tuple", "concat") or b.op in ("list", "tuple", "concat") or is_str(a) or is_str(b):
        return mk("repeat", *sorted((a, b)))
    da, db = _poly_dict(a), _poly_dict(b)
    if len(da) * len(db) > 200:
        return mk("bigmul", *sorted((a, b)))
    out = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mulmono(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return _from_poly(out)


def mul(a, b):
    return lift(_mul2, a, b)


def _inv(a):
    if a.op == "num":
        if a.args[0] == 0:
            return mk("inv0")
        return mk("num", 1 / a.args[0])
    if a.op == "const" and a.args[0] in (float("inf"), float("-inf")):
        return ZERO
    d = _poly_dict(a)
    if len(d) == 1:
        (m, c), = d.items()
        return _from_poly({tuple((t, -e) for t, e in m): 1 / c})
    # normalise the leading coefficient
    items = sorted(d.items(), key=lambda mc: (_tag(mc[0]), mc[1]))
    lead = items[0][1]
    p = _from_poly({m: c / lead for m, c in d.items()})
    return _from_poly({((p, -1),): 1 / lead})


def div(a, b):
    return mul(a, lift(_inv, b))


def power(a, b):
    def f(x, y):
        if y.op == "num" and y.args[0].denominator == 1 and 0 <= y.args[0] <= 4:
            r = ONE
            for _ in range(int(y.args[0])):
                r = _mul2(r, x)
            return r
        if y.op == "num" and y.args[0] == -1:
            return _inv(x)
        return mk("pow", x, y)

    return lift(f, a, b)


def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == "num":
            p = const(str(cval(p)))
        elif p.op == "const" and not isinstance(p.args[0], str):
            p = const(str(p.args[0]))
        if res and is_str(res[-1]) and is_str(p):
            res[-1] = const(res[-1].args[0] + p.args[0])
        elif is_str(p) and p.args[0] == "":
            continue
        else:
            res.append(p)
    if not res:
        return const("")
    if len(res) == 1 and (is_str(res[0]) or not (res[0].op in ("poly", "pos_of", "loopvar", "len", "fmt") or (res[0].op == "elem" and res[0].args[0].op == "range"))):
        return res[0]
    return mk("cat", *res)


# ------------------------------------------------------------------ booleans
def e_not(a):
    def f(x):
        if x.op == "const" and isinstance(x.args[0], bool):
            return const(not x.args[0])
        if x.op == "not":
            return x.args[0]
        if x.op == "lt":
            return cmp("le", x.args[1], x.args[0])
        if x.op == "le":
            return cmp("lt", x.args[1], x.args[0])
        if x.op == "eq":
            return mk("ne", *x.args)
        if x.op == "ne":
            return mk("eq", *x.args)
        if x.op == "isnull":
            return mk("notnull", *x.args)
        if x.op == "notnull":
            return mk("isnull", *x.args)
        if x.op == "and":
            return e_or(*[e_not(y) for y in x.args])
        if x.op == "or":
            return e_and(*[e_not(y) for y in x.args])
        return mk("not", x)

    return lift(f, a)


def _ac(op, other, unit, zero, xs):
    flat = []
    for x in xs:
        if x.op == op:
            flat.extend(x.args)
        else:
            flat.append(x)
    s = {}
    for x in flat:
        if x is unit:
            continue
        if x is zero:
            return zero
        s[x.key] = x
    out = [s[k] for k in sorted(s)]
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, *out)


def e_and(*xs):
    return lift(lambda *ys: _ac("and", "or", TRUE, FALSE, ys), *xs)


def e_or(*xs):
    return lift(lambda *ys: _ac("or", "and", FALSE, TRUE, ys), *xs)


def cmp(op, a, b):
    def f(x, y):
        if op in ("gt", "ge"):
            return f2({"gt": "lt", "ge": "le"}[op], y, x)
        return f2(op, x, y)

    def f2(o, x, y):
        if is_const(x) and is_const(y) and o in ("eq", "ne", "lt", "le"):
            try:
                vx, vy = cval(x), cval(y)
                return const({"eq": vx == vy, "ne": vx != vy, "lt": vx < vy, "le": vx <= vy}[o])
            except TypeError:
                pass
        if o in ("eq", "ne"):
            if x is y and x.op in ("const", "num"):
                return const(o == "eq")
            # move arithmetic to one side
            if _arith(x) or _arith(y):
                d = _canon_sign(sub(x, y))
                if is_num(d):
                    return const((d.args[0] == 0) == (o == "eq"))
                return mk(o, d, ZERO)
            return mk(o, *sorted((x, y)))
        if _arith(x) or _arith(y):
            d = _scale(sub(y, x))
            if is_num(d):
                return const(d.args[0] > 0 if o == "lt" else d.args[0] >= 0)
            return mk(o, ZERO, d)
        return mk(o, x, y)

    return lift(f, a, b)


def _arith(t):
    return t.op in ("num", "poly")


def _lead(d):
    return sorted(d.items(), key=lambda mc: (_tag(mc[0]), mc[1]))[0][1]


def _canon_sign(t):
    d = _poly_dict(t)
    dd = {m: c for m, c in d.items() if m} or d
    if not dd:
        return t
    lead = _lead(dd)
    return _from_poly({m: c / lead for m, c in d.items()})


def _scale(t):
    """scale by the absolute leading coefficient"""
    d = _poly_dict(t)
    dd = {m: c for m, c in d.items() if m} or d
    if not dd:
        return t
    lead = abs(_lead(dd))
    return _from_poly({m: c / lead for m, c in d.items()})


# ------------------------------------------------------------------ show
def show(t, depth=0):
    if depth > 14:
        return "…"
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else ("(" + ", ".join(s(y) for y in x) + ")" if isinstance(x, tuple) else repr(x))
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0])
    if o == "num":
        return str(cval(t))
    if o == "poly":
        parts = []
        for m, c in a[0]:
            fs = []
            for x, e in m:
                xs = s(x)
                if x.op in ("poly",):
                    xs = "(" + xs + ")"
                fs.append(xs if e == 1 else f"{xs}^{e}")
            cs = str(int(c) if c.denominator == 1 else float(c))
            body = "*".join(fs)
            if not body:
                parts.append(cs)
            elif c == 1:
                parts.append(body)
            elif c == -1:
                parts.append("-" + body)
            else:
                parts.append(cs + "*" + body)
        return "(" + " + ".join(parts) + ")"
    if o == "ite":
        return f"[{s(a[0])} ? {s(a[1])} : {s(a[2])}]"
    if o == "param":
        return a[0]
    if o == "ext":
        return a[0]
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "call":
        kw = ", ".join(f"{k}={s(v)}" for k, v in a[2])
        ps = ", ".join(s(x) for x in a[1])
        return f"{s(a[0])}({ps}{', ' if ps and kw else ''}{kw})"
    if o == "list":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "cat":
        return "f'" + "".join(x.args[0] if is_str(x) else "{" + s(x) + "}" for x in a) + "'"
    if o in ("lt", "le", "eq", "ne"):
        return f"({s(a[0])} {dict(lt='<', le='<=', eq='==', ne='!=')[o]} {s(a[1])})"
    if o in ("and", "or"):
        return "(" + (" & " if o == "and" else " | ").join(s(x) for x in a) + ")"
    if o == "not":
        return f"~{s(a[0])}"
    return f"{o}<" + ", ".join(s(x) for x in a) + ">"


def show_gate(g):
    if g is TRUE:
        return "always"
    out = []

    def rec(f, lits):
        if f is TRUE:
            out.append(" and ".join(lits) or "always")
            return
        if f is FALSE:
            return
        if len(out) > 6:
            return
        c, a, b = f.args
        rec(a, lits + [show(c)])
        rec(b, lits + ["not " + show(c)])

    rec(g, [])
    return " OR ".join(out[:6])


def substitute(t, mapping, memo=None):
    """replace sub terms; mapping: {id(term): term}. rebuilds structurally via mk (no renormalisation
    besides polynomials / ite)"""
    memo = {} if memo is None else memo

    def rec(x):
        if id(x) in mapping:
            return mapping[id(x)]
        if id(x) in memo:
            return memo[id(x)]
        if not x.args or x.op in ("const", "num", "param", "ext"):
            return x
        if x.op == "poly":
            r = ZERO
            for m, c in x.args[0]:
                p = mk("num", c)
                for b, e in m:
                    nb = rec(b)
                    p = mul(p, power(nb, const(e)) if e >= 0 else div(ONE, power(nb, const(-e))))
                r = add(r, p)
        elif x.op == "ite":
            c = rec(x.args[0])
            r = ite(c if c.op in ("const", "ite") else mk("ite", c, TRUE, FALSE), rec(x.args[1]), rec(x.args[2]))
        else:
            r = mk(x.op, *[_rs(a) for a in x.args])
        memo[id(x)] = r
        return r

    def _rs(a):
        if isinstance(a, T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(_rs(y) for y in a)
        return a

    return rec(t)

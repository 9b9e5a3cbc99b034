"""Comparison surfaces: a public entry point of the analysed tree, lowered and compared with its reference snippet."""
from __future__ import annotations

import ast
import glob
import os

from .repo import Repo, AnalysisError
from .interp import Interp, Frame
from .terms import *
from .terms import T
from . import compare, norm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """one analysis run over the current source tree"""

    def __init__(self):
        extra = [(p, VERIF) for p in sorted(glob.glob(os.path.join(VERIF, "spec", "*.py")))]
        extra.sort(key=lambda x: (not x[0].endswith("__init__.py"), x[0]))
        self.repo = Repo(extra=extra)
        self.cache = {}
        self.functions = set()
        self.notes = set()

    def lower(self, qual, args, prims):
        key = (qual, tuple(id(a) if isinstance(a, T) else a for a in args), prims)
        if key not in self.cache:
            I = Interp(self.repo, prims=prims)
            ret = I.run(qual, list(args))
            self.functions |= set(I.visited_functions)
            self.notes |= I.notes
            self.cache[key] = (ret, I.effects, I)
        return self.cache[key]


def params(repo, qual):
    mod, node, cls = repo.function(qual)
    a = node.args
    out = []
    pos = a.posonlyargs + a.args
    dflt = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    for p, d in zip(pos, dflt):
        out.append((p.arg, d, "pos", p.annotation))
    if a.vararg:
        out.append((a.vararg.arg, None, "var", a.vararg.annotation))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((p.arg, d, "kw", p.annotation))
    if a.kwarg:
        out.append((a.kwarg.arg, None, "kwvar", a.kwarg.annotation))
    return out


NETLIKE = {"n", "network"}


class Surface:
    """impl entry vs spec entry.

    roles: mapping parameter name -> how to instantiate ("net", "sub", "comp", "str:...", ...)
    """

    def __init__(self, impl, spec, kinds=("var", "con", "store", "raise", "call"), ret=True, unprim=(), fixed=None, title=None,
                 roles=None, ignore_extra=(), prims=None, calls=(), values=(), order=(), then=None, inner=()):
        self.impl, self.spec, self.kinds, self.ret = impl, spec, kinds, ret
        self.unprim = frozenset(unprim)
        self.calls = frozenset(calls)      # functions kept as opaque calls with effects (verified by their own surfaces)
        self.values = frozenset(values)    # functions kept as opaque values
        self.inner = tuple(inner)          # a function passed on in the result: compare what it does with each of these arguments
        self.then = then                   # the result is (made of) a function: compare what it does with these arguments
        self.order = tuple(order)          # (a, b): every call of a precedes every call of b
        self.fixed = fixed or {}
        self.roles = roles or {}
        self.title = title or impl.split("pypsa.")[-1]
        self.ignore_extra = ignore_extra
        self.prims = prims

    def args_for(self, ctx, names, qual):
        """arguments for the parameters of the reference, in order"""
        out = []
        for name, kind in names:
            if name in self.fixed:
                v = self.fixed[name]
                out.append(v if isinstance(v, T) else const(v) if not isinstance(v, (int, float)) or isinstance(v, bool) else mk("num", v))
            else:
                out.append(self.instance(name))
        return out

    def instance(self, name):
        r = self.roles.get(name)
        if r == "net" or (r is None and name in NETLIKE):
            return mk("net", "n")
        if r == "sub" or (r is None and name in ("sub_network", "sub")):
            return mk("sub", mk("net", "n"), name)
        if r and r.startswith("new:"):
            return mk("new", r[4:], (mk("net", "n"),), ())
        if r == "other":
            return mk("net", name)
        if r and r.startswith("a:"):
            return mk("param", name, "", r[2:])
        if r == "comp":
            return mk("cobj", mk("net", "n"), mk("param", name))
        return mk("param", name)

    def run(self, ctx, res, select=None, check_extra=True):
        repo = ctx.repo
        sp = params(repo, self.spec)
        ip = params(repo, self.impl)
        prims = frozenset((self.prims if self.prims is not None else norm.PRIMS) - self.unprim | self.calls | self.values)
        inames = [p[0] for p in ip]
        # the reference lists the documented parameters; the implementation may have more (with defaults)
        bad = []
        for name, d, kind, ann in sp:
            if kind in ("var", "kwvar"):
                continue
            if name in ("self", "n", "network") :
                continue
            q = [p for p in ip if p[0] == name]
            if not q:
                if not any(p[2] == "kwvar" for p in ip):
                    raise AnalysisError(f"{self.impl} has no parameter {name}")
                continue
            if d is not None:
                a, b = ctx_default(ctx, self.impl, q[0][1]), ctx_default(ctx, self.spec, d)
                if a is not b:
                    bad.append((name, a, b))
        if select is None:
            for name, a, b in bad:
                res.add(f"{self.title}: default of {name}", "violation",
                        f"default value is {show(a) if a is not None else 'absent'} where the documented one is {show(b)}",
                        [site_of(repo, self.impl)])
            res.add(f"{self.title}: signature", "discharged" if not bad else "violation", "" if not bad else "defaults differ", [site_of(repo, self.impl)])
        env = {}
        vals = {}
        for i, (name, d, kind, ann) in enumerate(sp):
            if name in self.fixed:
                v = self.fixed[name]
                vals[name] = v if isinstance(v, T) else (mk("num", v) if isinstance(v, (int, float)) and not isinstance(v, bool) else const(v))
            elif kind == "var":
                vals[name] = mk("star", mk("param", name))
            elif kind == "kwvar":
                vals[name] = mk("param", name)
            else:
                vals[name] = self.instance(name) if not (i == 0 and name == "self") else self.instance("self")
        a_impl = self.bindargs(ip, sp, vals)
        a_spec = self.bindargs(sp, sp, vals)
        r1 = self.lower(ctx, self.impl, a_impl, prims)
        r2 = self.lower(ctx, self.spec, a_spec, prims)
        if self.inner:      # assertions of a function passed on are looked at with the arguments it gets, below
            for r in (r1, r2):
                r[1][:] = [e for e in r[1] if not (e.kind == "raise" and e.data.get("exc") is const("AssertionError") and any(x.op == "lambda" for x in e.loops))]
        ni, ns = compare.group(r1[1], self.kinds), compare.group(r2[1], self.kinds)
        hk = ("heads", self.spec, prims)
        if hk not in ctx.cache:
            compare.set_reference([r2[0]] + [v for e in r2[1] for v in list(e.data.values()) + [e.gate] if isinstance(v, T)])
            ctx.cache[hk] = set(compare.REF_HEADS)
        compare.REF_HEADS.clear()
        compare.REF_HEADS.update(ctx.cache[hk])
        sub = compare.Result()
        sel = (lambda k: True) if select is None else (lambda k: select(k))
        compare.compare_groups(ni, ns, sel, sub, check_extra=check_extra)
        for o in sub.obligations:
            res.add(f"{self.title}: {o[0]}", *o[1:])
        for x, y, *together in self.order:
            self.check_order(r1[1], x, y, res, repo, together)
        if self.ret and select is None:
            results = [("result", r1[0], r2[0])]
            if self.inner:      # the result itself and what the function passed on does with each of the arguments
                results = [("result" + "".join(f" {show(x)}" for x in (self.inner[i - 1][1:] if i else ())), x, y)
                           for i, (x, y) in enumerate(zip(r1[0].args, r2[0].args))]
            for what, x, y in results:
                a, b = normal_exit((x, *r1[1:])), normal_exit((y, *r2[1:]))
                st, pairs = compare.classify(a, b)
                if st == "same":
                    res.add(f"{self.title}: {what}", "discharged", "", [site_of(repo, self.impl)])
                else:
                    res.add(f"{self.title}: {what}", st, "; ".join(compare.show_pair(p) for p in pairs[:3]), [site_of(repo, self.impl)])

    def check_order(self, effects, x, y, res, repo, together=()):
        def about(e):
            """the component a call is about"""
            c = e.data["call"] if e.kind == "call" else None
            i = {"add": 2, "_import_components_from_df": 3, "_import_series_from_df": 3}.get(str(c.args[0])) if c is not None and c.op == "prim" else None
            return c.args[i] if i is not None and i < len(c.args) else None

        def common(a, b):
            x, y = about(a), about(b)
            return x is None or y is None or x is y

        def what(e):
            if e.kind == "call":
                c = e.data["call"]
                return str(c.args[0]) if c.op == "prim" else c.op
            return e.kind
        xs = [i for i, e in enumerate(effects) if what(e) == x]
        ys = [i for i, e in enumerate(effects) if what(e) == y]
        bad = [(i, j) for i in xs for j in ys if j < i and (not together or common(effects[i], effects[j])) and b_and(effects[i].gate, effects[j].gate) is not FALSE]
        if not xs or not ys:
            return
        res.add(f"{self.title}: {x} precedes {y}", "violation" if bad else "discharged",
                f"{y} at {effects[bad[0][1]].site} runs before {x}" if bad else "", [effects[ys[0]].site])

    def bindargs(self, ip, sp, vals):
        """(args, kwargs) to call a function with parameters ip using the reference's values"""
        args, kwargs = [], {}
        spn = [p[0] for p in sp]
        first = spn[0] if spn else None
        for i, (name, d, kind, ann) in enumerate(ip):
            if kind == "var":
                if name in vals or any(p[2] == "var" for p in sp):
                    nm = name if name in vals else [p[0] for p in sp if p[2] == "var"][0]
                    args.append(vals[nm])
                continue
            if kind == "kwvar":
                nm = [p[0] for p in sp if p[2] == "kwvar"]
                if nm:
                    kwargs["**"] = vals[nm[0]]
                continue
            if name in vals:
                v = vals[name]
            elif i == 0 and first in ("self", "n", "network", "sub", "sub_network"):
                v = vals[first]
            else:
                continue
            kwargs[name] = v
        return args, kwargs

    def lower(self, ctx, qual, ak, prims):
        args, kwargs = ak
        key = (qual, tuple(a.key for a in args), tuple((k, v.key) for k, v in sorted(kwargs.items())), prims, self.calls, self.then, self.inner, "warn" in self.kinds)
        if key not in ctx.cache:
            I = Interp(ctx.repo, prims=prims, effect_prims=self.calls)
            I.warn = "warn" in self.kinds
            mod, node, cls = ctx.repo.function(qual)
            ret = I.call_function(mod, node, cls, args, kwargs, entry=True)
            if ret is None:
                raise AnalysisError(f"cannot bind the arguments of {qual}")
            if self.then is not None:
                fs = {f.key: f for t in walk(ret) for f in ([t] if t is ret else [a for a in (t.args[1] if t.op == "new" else ()) if isinstance(a, T)])
                      if f.op in ("closure", "fn", "bound_method")}
                if len(fs) != 1:
                    raise AnalysisError(f"no single function in the result of {qual}")
                I.stack.append(Frame(mod, node, {}, cls=cls))
                ret = I.try_inline(next(iter(fs.values())), list(self.then), {})
                I.stack.pop()
                if ret is None:
                    raise AnalysisError(f"cannot call the result of {qual}")
            if self.inner:
                fs = {t.key: t for t in walk(ret) if t.op in ("closure", "bound_method")}
                values = []
                if len(fs) == 1:
                    f = next(iter(fs.values()))
                    for a in self.inner:
                        I.stack.append(Frame(mod, node, {}, cls=cls))
                        v = I.try_inline(f, list(a), {})
                        I.stack.pop()
                        if v is None:
                            raise AnalysisError(f"cannot call the function passed on in {qual}")
                        values.append(v)
                    drop = {id(f): const("function")}
                    ret = substitute(ret, drop)
                    for e in I.effects:
                        if e.kind == "call":
                            e.data = {**e.data, "call": substitute(e.data["call"], drop)}
                ret = mk("tuple", ret, *values)
            ret = functions_by_value(I, ret, (mod, node, cls))
            drop_overwritten(I)
            if not qual.startswith("spec."):
                ctx.functions |= set(I.visited_functions)
            ctx.notes |= I.notes
            ctx.cache[key] = (ret, I.effects, I)
        return ctx.cache[key]


def drop_overwritten(I):
    """stores into tables of time-dependent data that a later one replaces leave nothing behind"""
    out, later = [], {}
    for e in reversed(I.effects):
        if e.kind == "store" and e.data["obj"].op == "at":
            o = e.data["obj"]
            if o.args[0].op == "dynamic":
                over = later.setdefault(id(o), [])
                if any(norm.covers(x.data["key"], e.data["key"]) and b_and(e.gate, b_not(x.gate)) is FALSE for x in over):
                    continue
                if not e.loops:
                    over.append(e)
        out.append(e)
    I.effects[:] = out[::-1]


def functions_by_value(I, ret, where):
    """local functions that are handed on inside values are what they compute"""
    terms = [ret] + [x for e in I.effects for x in (e.gate, *e.loops, *e.data.values()) if isinstance(x, T)]
    fs = {t.key: t for x in terms if isinstance(x, T) for t in walk(x) if t.op == "closure"}
    if not fs:
        return ret
    known, by = len(I.effects), {}
    mod, node, cls = where
    for f in fs.values():
        I.stack.append(Frame(mod, node, {}, cls=cls))
        try:
            g = I.lam(f, 9)
        finally:
            I.stack.pop()
        if g is not f:
            by[id(f)] = g
    del I.effects[known:]
    if not by:
        return ret
    sub = lambda x: substitute(x, by) if isinstance(x, T) else x
    for e in I.effects:
        e.gate, e.loops = sub(e.gate), tuple(sub(x) for x in e.loops)
        e.data = {k: sub(v) for k, v in e.data.items()}
    return sub(ret)


def ctx_default(ctx, qual, d):
    if d is None:
        return None
    mod, node, cls = ctx.repo.function(qual)
    return Interp(ctx.repo).eval_in_module(mod, d)


def site_of(repo, qual):
    mod, node, cls = repo.function(qual)
    return f"{repo.rel(mod.path)}:{node.lineno} ({node.name})"


def normal_exit(r):
    """the value returned, knowing that nothing was raised"""
    ret, effects, I = r
    g = TRUE
    for e in effects:
        if e.kind == "raise" and not e.loops and e.gate is not TRUE:
            g = b_and(g, b_not(e.gate))
    if g is TRUE or g is FALSE or not isinstance(ret, T):
        return ret
    return compare.under(constrain(ret, g), g)

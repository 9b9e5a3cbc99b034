"""Which networks share mutable objects: values stored into one network that are, without a copy, part of another."""
from __future__ import annotations

from .interp import Interp
from .terms import *
from .terms import T
from . import norm
from .surface import Surface, params, site_of

# the tables of a network that are modified in place
SHARED_ATTRS = {"snapshot_weightings", "_snapshot_weightings", "investment_period_weightings", "_investment_period_weightings", "meta", "_meta",
                "components", "_linkport_attrs"}


def root(t):
    """the network a path belongs to"""
    while isinstance(t, T) and t.op in ("static", "dynamic", "at", "attr", "cattrs", "cobj"):
        t = t.args[0]
    return t if isinstance(t, T) and t.op == "net" else None


def aliases(t, source):
    """paths into the source that t is, as the very same object"""
    out = []
    for _, v in (leaves(t) if t.op == "ite" else [(TRUE, t)]):
        if v.op in ("static", "dynamic", "cattrs") and root(v) is source:
            out.append(v)
        elif v.op == "at" and v.args[0].op == "dynamic" and root(v) is source and len(v.args[1]) == 1:
            out.append(v)
        elif v.op == "attr" and v.args[0] is source and v.args[1] in SHARED_ATTRS:
            out.append(v)
    return out


class Sharing:
    """no value stored into a network the function creates is an uncopied table of the network it is given"""

    def __init__(self, impl, fixed, calls, sources=("n",), title=None, objects=True):
        self.impl, self.fixed, self.calls, self.sources, self.objects = impl, fixed, calls, sources, objects
        self.title = title or impl.rsplit(".", 1)[-1]

    def lower(self, ctx):
        key = ("sharing", self.impl, tuple((k, v.key if isinstance(v, T) else v) for k, v in sorted(self.fixed.items())))
        if key not in ctx.cache:
            I = Interp(ctx.repo, prims=frozenset(norm.PRIMS) | frozenset(self.calls), effect_prims=frozenset(self.calls))
            I.keep_copies = True
            mod, node, cls = ctx.repo.function(self.impl)
            args, kw = [], {}
            for i, (name, d, kind, ann) in enumerate(params(ctx.repo, self.impl)):
                if name in self.fixed:
                    v = self.fixed[name]
                    kw[name] = v if isinstance(v, T) else const(v)
                elif i == 0:
                    args.append(mk("net", "n"))
                elif name in self.sources:
                    kw[name] = mk("net", name)
            ret = I.call_function(mod, node, cls, args, kw, entry=True)
            ctx.functions |= set(I.visited_functions)
            ctx.cache[key] = (ret, I.effects, I)
        return ctx.cache[key]

    def __call__(self, ctx, res, tier):
        ret, effects, I = self.lower(ctx)
        sources = [mk("net", s) for s in self.sources]
        made = {v.key: v for _, v in leaves(ret) if isinstance(v, T) and v.op == "net" and v not in sources} if isinstance(ret, T) else {}
        n = 0
        bad = []
        for e in effects:
            if e.kind != "store" or not isinstance(e.data.get("val"), T):
                continue
            r = e.data["obj"] if e.data["obj"].op == "net" else root(e.data["obj"])
            if r is None:
                continue
            n += 1
            for s in sources:
                if r is s:
                    continue
                for p in aliases(e.data["val"], s):
                    bad.append((show(p), e.site))
        for p, site in sorted(set(bad)):
            res.add(f"{self.title}: shares {p}", "violation", f"stores {p} of the original itself, not a copy", [site])
        res.add(f"{self.title}: stored values are copies", "violation" if bad else "discharged", "some are not" if bad else f"{n} stores", [site_of(ctx.repo, self.impl)])
        if self.objects:
            ok = False
            for e in effects:
                if e.kind == "store" and root(e.data["obj"]) not in (None, *sources) and "obj" in show(e.data["key"]) + show(e.data["obj"]) and "SubNetwork" in show(e.data["obj"]):
                    ok = True
                if e.kind == "call" and e.data["call"].op == "prim" and "determine_network_topology" in str(e.data["call"].args[0]):
                    ok = True
            copied = any(e.kind == "call" and (e.data["call"].op == "prim" and str(e.data["call"].args[0]).strip("'") == "add" and any(x is const("SubNetwork") for x in e.data["call"].args if isinstance(x, T))
                                               or show(e.data["call"]).startswith(("copy.deepcopy", "copy.copy"))) for e in effects)
            res.add(f"{self.title}: sub-network objects are rebuilt for the copy", "discharged" if ok or not copied else "violation",
                    "" if ok or not copied else "the copy holds the sub-network objects of the original, which refer to the original network", [site_of(ctx.repo, self.impl)])

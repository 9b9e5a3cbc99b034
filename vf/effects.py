"""Effect analysis: which objects of its caller a function modifies."""
from __future__ import annotations

import re

from .interp import Interp
from .terms import *
from .terms import T
from . import norm
from .surface import Surface, params, site_of


def path_root(t):
    """the parameter (or network) an object is reached from; None for a fresh object"""
    while isinstance(t, T):
        if t.op in ("net", "param"):
            if t.op == "net" and isinstance(t.args[0], T):
                return None                          # a network made here
            return t
        if t.op in ("attr", "at", "static", "dynamic", "cobj", "cattrs", "sub", "model", "elem", "idx"):
            t = t.args[0]
        elif t.op == "loopvar":
            t = t.args[2]
        elif t.op == "last" and len(t.args) == 3:
            t = t.args[1]
        else:
            return None
    return None


class ReadOnly:
    """the function modifies nothing its caller can see, except what the patterns in `may` describe"""

    def __init__(self, impl, roles=None, may=(), fixed=None, only_arguments=False, title=None, calls=(), unprim=(), prims=None):
        self.impl, self.roles, self.fixed = impl, roles or {}, fixed or {}
        self.may = [re.compile(p) for p in may]
        self.only_arguments = only_arguments      # the function is there to modify its network, but not its other arguments
        self.calls, self.unprim = frozenset(calls), frozenset(unprim)
        self.title = title or impl.split("pypsa.")[-1]

    def lower(self, ctx):
        I = Interp(ctx.repo, prims=frozenset(norm.PRIMS) - self.unprim | self.calls, effect_prims=frozenset(norm.EFFECT_PRIMS) | self.calls)
        I.keep_copies = True
        s = Surface(self.impl, self.impl, roles=self.roles, fixed=self.fixed)
        mod, node, cls = ctx.repo.function(self.impl)
        args, kw, own = [], {}, set()
        for name, d, kind, ann in params(ctx.repo, self.impl):
            if kind == "var":
                args.append(mk("star", mk("param", name)))
                own.add(name)
            elif kind == "kwvar":
                kw["**"] = mk("param", name)
                own.add(name)
            elif name in self.fixed:
                v = self.fixed[name]
                kw[name] = v if isinstance(v, T) else (mk("num", v) if isinstance(v, (int, float)) and not isinstance(v, bool) else const(v))
            else:
                kw[name] = s.instance(name)
        first = next((x for x in kw.values()), None)
        I.call_function(mod, node, cls, args, kw, entry=True)
        ctx.functions |= set(I.visited_functions)
        ctx.notes |= I.notes
        return I, own, first

    def targets(self, I):
        """(object, what, effect)"""
        for e in I.effects:
            if e.kind == "store":
                yield e.data["obj"], e.data["key"], e
            elif e.kind == "call":
                c = e.data["call"]
                if c.op == "prim":
                    if len(c.args) > 1 and isinstance(c.args[1], T):
                        yield c.args[1], const(str(c.args[0])), e
                elif c.op == "call" and c.args[0].op == "attr" and c.args[0].args[1] in norm.MUTATORS:
                    yield c.args[0].args[0], const(c.args[0].args[1]), e

    def __call__(self, ctx, res, tier):
        I, own, first = self.lower(ctx)
        n, bad = 0, {}
        for obj, key, e in self.targets(I):
            n += 1
            if e.kind == "store" and not norm.is_path(obj):
                continue
            r = path_root(obj)
            if r is None or r.op == "param" and r.args[0] in own:
                continue
            if self.only_arguments and (r is first or r.op == "net"):
                continue
            what = f"{show(obj)} [{show(key)}]"
            if any(p.search(what) for p in self.may):
                continue
            bad.setdefault((what, e.site), e)
        for (what, site), e in sorted(bad.items(), key=lambda x: x[0]):
            res.add(f"{self.title}: modifies {what[:120]}", "violation", f"{what[:300]} is modified, an object of the caller", [site])
        res.add(f"{self.title}: effects on objects of the caller", "violation" if bad else "discharged", f"{len(bad)} of {n} effects" , [site_of(ctx.repo, self.impl)])

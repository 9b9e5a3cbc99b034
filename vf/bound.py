"""A method of a class that is a function of the package under a short name."""
from __future__ import annotations

import ast

from .interp import Interp, Frame
from .repo import AnalysisError, dotted_name
from .surface import site_of, params
from .terms import *
from . import compare, norm


class Bound:
    """`obj.name(...)` is `target(obj, ...)`"""

    def __init__(self, impl, target):
        self.impl, self.target = impl, target
        self.title = impl.split("pypsa.")[-1]

    def __call__(self, ctx, res, tier):
        repo = ctx.repo
        mod, node, cls = repo.function(self.impl)
        _, want, _ = repo.function(self.target)
        site = [site_of(repo, self.impl)]
        if node is want:
            res.add(f"{self.title}: function", "discharged", "", site)
            return
        own = node in cls.body or any(node in getattr(b, "body", ()) for b in cls.body)
        if not own:
            res.add(f"{self.title}: function", "violation", f"{self.title} is {mod.name}.{node.name} where the documented function is {self.target}", site)
            return
        # a method which hands its arguments on
        ps = params(repo, self.impl)
        me = mk("param", "self", "", f"{cls.name}")
        args, kw = [me], {}
        for name, d, kind, ann in ps[1:]:
            if kind == "var":
                args.append(mk("star", mk("param", name)))
            elif kind == "kwvar":
                kw["**"] = mk("param", name)
            else:
                kw[name] = mk("param", name)
        I = Interp(repo, prims=frozenset(norm.PRIMS) | {self.target}, effect_prims=frozenset([self.target]))
        I.stack.append(Frame(mod, node, {}, cls=cls))
        got = I.call_function(mod, node, cls, args, dict(kw), entry=True)
        I.stack.pop()
        J = Interp(repo, prims=frozenset(norm.PRIMS) | {self.target}, effect_prims=frozenset([self.target]))
        J.stack.append(Frame(mod, node, {}, cls=cls))
        env = norm.prim_args(J, self.target, list(args), dict(kw))
        ref = norm.mk_prim(J, self.target, env, node) if env is not None else None
        J.stack.pop()
        if got is None or ref is None:
            raise AnalysisError(f"cannot bind the arguments of {self.impl}")
        st, pairs = compare.classify(got, ref)
        res.add(f"{self.title}: function", "discharged" if st == "same" else st, "; ".join(compare.show_pair(p) for p in pairs[:2]), site)


class Renamed:
    """arguments which functions accept under an old name: declared on the function, and the new name is one it takes"""

    def __init__(self, kept, through=None):
        self.kept, self.through, self.title = kept, through or {}, "arguments under old names"

    def declared(self, repo, mod, node):
        out = {}
        for d in node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            r = repo.lookup_name(mod, dotted_name(f) or "")
            q = r[1].name + "." + r[2].name if r and r[0] == "fn" else ""
            if q == "pypsa.common.deprecated_common_kwargs":
                out["network"] = "n"
            elif q == "pypsa.common.deprecated_kwargs":
                for k in d.keywords:
                    if k.arg not in (None, "deprecated_in", "removed_in"):
                        if not isinstance(k.value, ast.Constant):
                            raise AnalysisError(f"new name of {k.arg} on {node.name} not known")
                        out[k.arg] = k.value.value
        return out

    def __call__(self, ctx, res, tier):
        repo = ctx.repo
        todo = {q: dict(v) for q, v in self.kept.items()}
        for name, m in sorted(repo.modules.items()):
            if name.startswith("pypsa"):
                for owner, fn in functions_of(m.tree.body, ""):
                    if fn.decorator_list:
                        todo.setdefault(f"{name}.{owner}{fn.name}", {})
        for q, want in sorted(todo.items()):
            try:
                mod, node, cls = repo.function(q)
            except Exception:
                if want:
                    res.add(f"{q}: function", "undecided", "function not found", [q])
                continue
            have = self.declared(repo, mod, node)
            site = [site_of(repo, q)]
            for old, new in sorted({**have, **want}.items()):
                oid = f"{q.split('pypsa.')[-1]}: {old}"
                if have.get(old) != new:
                    res.add(oid, "violation", f"the argument {old} is not taken as {new}", site)
                    continue
                ps = args_of(node)
                if old == "network" and old not in want:
                    continue        # the blanket decorator on a function without a network
                if "**" in ps and q in self.through:
                    ps |= args_of(repo.function(self.through[q])[1])
                if old in ps:
                    res.add(oid, "violation", f"{old} is an argument of the function itself", site)
                elif new not in ps and ("**" not in ps or q in self.through):
                    res.add(oid, "violation", f"the new name {new} of {old} is not an argument of the function", site)
                else:
                    res.add(oid, "discharged", "", site)


def args_of(node):
    a = node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({"**"} if a.kwarg else set())


def functions_of(body, owner):
    for x in body:
        if isinstance(x, ast.ClassDef):
            yield from functions_of(x.body, owner + x.name + ".")
        elif isinstance(x, ast.FunctionDef):
            yield owner, x

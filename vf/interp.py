"""Interprocedural value-flow analysis.

Lowers Python source (read with `ast`, never executed) into gated value graphs:
every expression gets a hash-consed term (terms.py), control merges become
decision-diagram nodes, calls to functions of the analysed tree are inlined
context-sensitively, loops over literal tables are expanded and all other loops
are summarised with a quantified element.  Observable actions (model rows, heap
stores, calls, raises) are collected as effects with their gate and loop context.
"""
from __future__ import annotations

import ast
import builtins
import time

from .repo import AnalysisError, Repo, dotted_name, import_bindings
from .terms import *  # noqa: F403
from .terms import _cof  # noqa: F401
from . import norm

MAX_DEPTH = 30
MAX_UNROLL = 80


class Effect:
    __slots__ = ("kind", "data", "gate", "loops", "site", "func")

    def __init__(self, kind, data, gate, loops, site, func):
        self.kind, self.data, self.gate, self.loops, self.site, self.func = kind, data, gate, loops, site, func

    def variant(self, data):
        return Effect(self.kind, data, self.gate, self.loops, self.site, self.func)

    def __repr__(self):
        d = {k: show(v) if isinstance(v, T) else v for k, v in self.data.items()} if isinstance(self.data, dict) else self.data
        return f"<{self.kind} {d} if {show_gate(self.gate)} for {[show(x) for x in self.loops]} @{self.site}>"


class Closure:
    def __init__(self, node, module, env_frame, cls=None):
        self.node, self.module, self.frame, self.cls = node, module, env_frame, cls


class Frame:
    def __init__(self, module, fnode, env, parent=None, cls=None, outer=TRUE):
        self.module, self.fnode, self.env, self.parent, self.cls = module, fnode, env, parent, cls
        self.G = TRUE
        self.outer = outer
        self.returns = []
        self.yields = None
        self.imports = {}
        self.loopstack = []
        self.params0 = {}      # parameter -> argument, while the parameter still denotes the caller's object
        self.alias = []        # sets of local names bound to one object
        self.views = {}        # local name -> the attribute of a shared object it is bound to
        self.renamed = set()   # local names bound to an object made by renaming another
        self.exits = []        # (gate, parameters updated in place) at the returns
        self.locals = _locals_of(fnode) if fnode is not None and not isinstance(fnode, ast.Lambda) else set()


def _locals_of(fn):
    cached = getattr(fn, "_vf_locals", None)
    if cached is not None:
        return cached
    out = set()
    decl = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n is not fn:
                out.add(n.name)
                return
            self.generic_visit(n)

        def visit_Lambda(self, n):
            return

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Nonlocal(self, n):
            decl.update(n.names)

        visit_Global = visit_Nonlocal

    V().visit(fn)
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    fn._vf_locals = out - decl
    return fn._vf_locals


def stored_names(stmts):
    return {x.id for st in stmts for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def assigned_names(stmts):
    """names (re)bound or mutated in stmts (syntactic)"""
    order = []

    def add(n):
        if n not in order:
            order.append(n)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            return

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)

        def visit_Subscript(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                r = _root_name(n)
                if r:
                    add(r)
            self.generic_visit(n)

        def visit_Attribute(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                r = _root_name(n)
                if r:
                    add(r)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            r = _root_name(n.target)
            if r:
                add(r)
            self.generic_visit(n)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and norm.mutates(n):
                r = _root_name(n.func.value)
                if r:
                    add(r)
            self.generic_visit(n)

    for s in stmts:
        V().visit(s)
    return order


def _root_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


BUDGET_S = 240.0


class AnalysisError_(Exception):
    """the analysis gave up"""


def bound_in(fr, name):
    """is the name given a value anywhere in the functions around this point"""
    while fr is not None:
        if fr.fnode is None:
            return True
        if name in fr.locals:
            return True
        for x in ast.walk(fr.fnode):
            if (isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) or isinstance(x, ast.arg) and x.arg == name
                    or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name or isinstance(x, ast.ExceptHandler) and x.name == name
                    or isinstance(x, ast.alias) and (x.asname or x.name.split(".")[0]) == name):
                return True
        fr = fr.parent
    return False


class Interp:
    def __init__(self, repo: Repo, prims=None, models=None, inline_filter=None, effect_prims=frozenset()):
        self.effect_prims = effect_prims
        self.warn = False
        self.last_inplace = None
        self.keep_copies = False
        self.repo = repo
        self.effects: list[Effect] = []
        self.closures: dict[int, Closure] = {}
        self.heap: dict = {}
        self.stack: list = []
        self.loops: list = []
        self.kwvars: set = set()
        self.types: dict = {}  # id(term) -> class name
        self.prims = prims if prims is not None else norm.PRIMS
        self.inline_filter = inline_filter
        self.notes: set = set()
        self.visited_functions: dict = {}
        self.globals_cache: dict = {}
        self.lamdepth = 0
        self.suppress = 0
        self.call_count = 0
        self.deadline = time.process_time() + BUDGET_S

    # ------------------------------------------------------------ utilities
    def note(self, msg, node=None, frame=None):
        f = frame or (self.stack[-1] if self.stack else None)
        where = ""
        if f is not None and node is not None and hasattr(node, "lineno"):
            where = f"{self.repo.rel(f.module.path)}:{node.lineno}: "
        self.notes.add(where + msg)

    def gate(self, frame=None):
        f = frame or self.stack[-1]
        return b_and(f.outer, f.G)

    def effect(self, kind, data, node=None):
        if self.suppress:
            return
        f = self.stack[-1]
        g = self.gate(f)
        if kind == "store" and g is not TRUE:
            k = data["key"]
            if k.op in ("intersection", "union", "difference") or k.op == "ite" and all(x.op in ("intersection", "union", "difference") for _, x in leaves_of(k)):
                # nothing happens to no columns, or to the present columns of a table without rows
                g = constrain(g, b_not(norm.empty(k)))
                if data["obj"].op == "static":
                    g = constrain(g, b_not(norm.empty(data["obj"])))
        if g is FALSE:
            return
        site = f"{self.repo.rel(f.module.path)}:{getattr(node, 'lineno', 0)}"
        fn = f.fnode.name if isinstance(f.fnode, ast.FunctionDef) else "<module>"
        self.effects.append(Effect(kind, data, g, tuple(self.loops), site, fn))

    def opaque(self, why, *args, node=None):
        self.note("opaque: " + why, node)
        return mk("opaque", why, *args)

    def typeof(self, t):
        if t.op == "new":
            return norm.static_type(t)
        return self.types.get(id(t)) or norm.static_type(t)

    # ------------------------------------------------------------ entry
    def run(self, qual, args=None, kwargs=None, self_term=None):
        mod, node, cls = self.repo.function(qual)
        return self.call_function(mod, node, cls, list(args or []), dict(kwargs or {}), self_term=self_term, entry=True)

    def bind(self, mod, node, args, kwargs, self_term=None, is_static=False):
        """-> env or None when the call cannot be bound"""
        a = node.args
        env = {}
        params = [p for p in a.posonlyargs + a.args]
        args = list(args)
        if self_term is not None and not is_static:
            args = [self_term] + args
        pos_extra = []
        star = None
        for i, v in enumerate(args):
            if v.op == "star":
                star = (i, v.args[0])
                args = args[:i]
                break
        if star is not None:
            # pass-through of an unresolved *args: only ok when callee has *args too or no more params needed
            if a.vararg is None and star[1].op != "param":
                return None
        for p, v in zip(params, args):
            env[p.arg] = v
        if len(args) > len(params):
            pos_extra = args[len(params):]
            if a.vararg is None:
                return None
        if a.vararg is not None:
            if star is not None:
                env[a.vararg.arg] = star[1] if not pos_extra else mk("concat", mk("tuple", *pos_extra), star[1])
            else:
                env[a.vararg.arg] = mk("tuple", *pos_extra)
        kw = dict(kwargs)
        kwstar = kw.pop("**", None)
        extra = {}
        names = {p.arg for p in params + a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            d = mk("dict", tuple(sorted(((const(k), v) for k, v in extra.items()), key=lambda x: x[0].key)))
            if kwstar is not None:
                d = kwstar if not extra else norm.dictmerge([d, kwstar])
            env[a.kwarg.arg] = d
            if d.op == "param":
                self.kwvars.add(d.key)
        elif extra:
            return None
        if star is not None and a.vararg is None:      # the arguments handed through, by position
            for i, p in enumerate(params[len(args):]):
                if p.arg not in env:
                    env[p.arg] = mk("starget", star[1], i) if kwstar is None else mk("starget", star[1], i, kwstar, p.arg)
        if kwstar is not None and a.kwarg is None:
            # unresolved ** into named parameters
            for p in params + a.kwonlyargs:
                if p.arg not in env:
                    env[p.arg] = mk("kwget", kwstar, p.arg)
            return env
        # defaults
        defaults = dict(zip([p.arg for p in params][len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p in params + a.kwonlyargs:
            if p.arg not in env:
                if p.arg in defaults:
                    env[p.arg] = self.eval_in_module(mod, defaults[p.arg])
                elif kwstar is not None:
                    env[p.arg] = mk("kwget", kwstar, p.arg)
                elif star is not None:
                    env[p.arg] = mk("starget", star[1], p.arg)
                else:
                    return None
        return env

    def eval_in_module(self, mod, expr):
        fr = Frame(mod, None, {})
        self.stack.append(fr)
        self.suppress += 1
        try:
            return self.ev(expr)
        finally:
            self.suppress -= 1
            self.stack.pop()

    def eval_with(self, mod, expr, env):
        """value of an expression of a constructor; nothing it does counts"""
        fr = Frame(mod, None, dict(env))
        self.stack.append(fr)
        self.suppress += 1
        try:
            return self.ev(expr)
        finally:
            self.suppress -= 1
            self.stack.pop()

    def call_function(self, mod, node, cls, args, kwargs, self_term=None, parent=None, entry=False):
        decos = [dotted_name(d.func if isinstance(d, ast.Call) else d) or "" for d in getattr(node, "decorator_list", [])]
        is_static = any(d.split(".")[-1] == "staticmethod" for d in decos)
        is_class = any(d.split(".")[-1] == "classmethod" for d in decos)
        if is_class and self_term is None and cls is not None:
            self_term = mk("cls", self.repo.class_module(cls, mod).name + "." + cls.name)
        env = self.bind(mod, node, args, kwargs, self_term, is_static)
        if env is None:
            return None
        # annotations give types
        for p in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            if p.annotation is not None and p.arg in env:
                ty = annotation_type(p.annotation)
                if ty and env[p.arg].op in ("param", "call", "attr", "item", "elem", "opaque", "bound"):
                    self.types.setdefault(id(env[p.arg]), ty)
        if self_term is not None and cls is not None and not is_static:
            self.types.setdefault(id(self_term), cls.name)
        outer = TRUE if not self.stack else self.gate()
        env0 = dict(env)
        fr = Frame(mod, node, env, parent=parent, cls=cls, outer=outer)
        self.visited_functions.setdefault((mod.name, node.name), 0)
        self.visited_functions[(mod.name, node.name)] += 1
        self.call_count += 1
        if time.process_time() > self.deadline:
            raise AnalysisError_("time budget exceeded")
        if self.call_count > 60000:
            raise AnalysisError_("analysis budget exceeded (inlining)")
        if _is_generator(node):
            fr.yields = mk("list")
        fr.params0 = {p: a for p, a in env.items() if isinstance(a, T) and a.op not in ("num", "const", "tuple", "fn", "net") and (not norm.is_path(a) or norm.kwroot(a).key in self.kwvars)}
        self.stack.append(fr)
        nloops = len(self.loops)
        try:
            self.block(node.body)
            if fr.G is not FALSE:
                self.note_exit(fr)
        finally:
            self.stack.pop()
            del self.loops[nloops:]
        if fr.G is FALSE and not fr.returns and fr.yields is None and getattr(fr, "raised", False) and self.stack and not entry:
            # never returns: neither does the caller
            self.stack[-1].G = FALSE
            self.stack[-1].raised = True
        changed = {p for g, d in fr.exits for p in d}
        self.last_inplace = None
        if changed:
            new = {}
            start = {p: a for p, a in env0.items()}
            for p in changed:
                vals = [(g, d.get(p, start[p])) for g, d in fr.exits]
                r = vals[-1][1]
                for g, v in reversed(vals[:-1]):
                    r = ite_safe(g, v, r)
                new[p] = r
            self.last_inplace = (node, new, start)
        if fr.yields is not None:
            return fr.yields
        rest = NONE
        ret = rest
        for g, v in reversed(fr.returns):
            ret = ite_safe(g, v, ret) if ret is not None else v
        # if every path returns, drop the implicit None
        if fr.returns:
            allg = FALSE
            for g, _ in fr.returns:
                allg = b_or(allg, g)
            if fr.G is FALSE:
                # no fallthrough: the last return is the default
                ret = fr.returns[-1][1]
                for g, v in reversed(fr.returns[:-1]):
                    ret = ite_safe(g, v, ret)
        return ret

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        fr = self.stack[-1]
        for st in stmts:
            if fr.G is FALSE:
                return
            self.stmt(st)

    def stmt(self, st):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.note(f"statement {type(st).__name__} not modelled", st)
            return
        m(st)

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(st.value)
        v = self.ev(st.value, stmt=True)
        if isinstance(st.value, ast.Call):
            norm.expr_statement(self, st, v)

    def do_yield(self, y):
        fr = self.stack[-1]
        v = self.ev(y.value) if y.value is not None else NONE
        if isinstance(y, ast.YieldFrom):
            fr.env["$yield"] = concat([fr.env.get("$yield", mk("list")), v])
        cur = fr.yields
        item = v if isinstance(y, ast.YieldFrom) else mk("list", v)
        g = fr.G
        if g is not TRUE:
            item = mk("glist", g, item)
        inner = item
        for lp in reversed(self.loops[getattr(fr, "nloops0", 0):]):
            pass
        if fr.loopstack:
            for it in reversed(fr.loopstack):
                item = mk("comp", "list", it, item, TRUE)
        fr.yields = concat([cur, item])

    def s_Pass(self, st):
        pass

    def s_Global(self, st):
        pass

    def s_Nonlocal(self, st):
        pass

    def s_Import(self, st):
        self.stack[-1].imports.update(import_bindings(st, self.stack[-1].module))

    s_ImportFrom = s_Import

    def s_FunctionDef(self, st):
        fr = self.stack[-1]
        f = self.make_closure(st)
        for d in reversed(st.decorator_list):
            g = self.ev(d)
            if g.op == "fn":        # a decorator of the package: the name is bound to what it returns
                g = self.call(g, [f], {}, d)
                f = g if g is not None and g.op == "closure" else f
        fr.env[st.name] = f

    def s_ClassDef(self, st):
        self.stack[-1].env[st.name] = self.opaque("local class", const(st.name))

    def make_closure(self, node):
        fr = self.stack[-1]
        t = self.closure_by_value(node, fr) or mk("closure", id(node), id(fr))
        self.closures[t.key] = Closure(node, fr.module, fr, fr.cls)
        return t

    def closure_by_value(self, node, fr):
        """a local function without effects, which depends on nothing that can still change, is what it computes"""
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults or self.lamdepth or getattr(node, "decorator_list", None):
            return None
        body = node.body if isinstance(node.body, list) else [node.body]
        inner = {p.arg for p in a.posonlyargs + a.args} | {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.Delete)):
                    return None
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in inner:
                    f = self.find_frame(x.id)
                    if f is None:
                        continue
                    fa = getattr(f.fnode, "args", None)
                    if not isinstance(fa, ast.arguments) or x.id not in {p.arg for p in fa.posonlyargs + fa.args + fa.kwonlyargs} or isinstance(f.fnode.body, list) and x.id in assigned_names(f.fnode.body):
                        return None
        t = mk("closure", id(node), id(fr))
        self.closures[t.key] = Closure(node, fr.module, fr, fr.cls)
        snap = (len(self.effects), dict(self.heap), set(self.notes), fr.G, fr.outer)
        try:
            v = self.lam(t, 9)
            known = v is not t and all(e.kind == "raise" for e in self.effects[snap[0]:]) and not (set(self.notes) - snap[2])
        except AnalysisError:
            known = False
        del self.effects[snap[0]:]
        self.heap, self.notes = snap[1], snap[2]
        fr.G, fr.outer = snap[3:]
        return mk("closure", v) if known else None

    def s_Return(self, st):
        fr = self.stack[-1]
        v = self.ev(st.value) if st.value is not None else NONE
        if fr.loopstack:
            # return from inside a symbolic loop: first element satisfying the gate
            for it in reversed(fr.loopstack):
                v = mk("first", it, fr.G, v)
            g = mk("any", fr.loopstack[-1], fr.G)
            fr.returns.append((mk("ite", g, TRUE, FALSE), v))
            fr.G = FALSE
            return
        fr.returns.append((fr.G, v))
        self.note_exit(fr)
        fr.G = FALSE

    def note_exit(self, fr):
        d = {p: fr.env[p] for p, a in fr.params0.items() if fr.env.get(p) is not None and fr.env[p] is not a}
        fr.exits.append((fr.G, d))

    def s_Raise(self, st):
        fr = self.stack[-1]
        exc = "raise"
        if st.exc is not None:
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            exc = dotted_name(e) or "exc"
        else:
            exc = "reraise"
        self.effect("raise", {"exc": const(exc)}, st)
        fr.raised = True
        fr.G = FALSE

    def s_Assert(self, st):
        if isinstance(st.test, ast.Call) and dotted_name(st.test.func) == "isinstance":
            return      # narrows a type for type checkers
        c = norm.truth(self.ev(st.test))
        fr = self.stack[-1]
        g0 = fr.G
        fr.G = b_and(g0, b_not(c))
        self.effect("raise", {"exc": const("AssertionError")}, st)
        fr.G = g0

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                if norm.is_path(o):
                    self.effect("store", {"obj": o, "key": k, "val": mk("deleted")}, st)
                self.update_root(t.value, o, k, mk("deleted"), st)
            elif isinstance(t, ast.Name):
                self.stack[-1].env.pop(t.id, None)

    def s_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v, st)
        if self.keep_copies and isinstance(st.value, ast.Attribute):
            self.note_view(st, v)
        if self.keep_copies and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in ("rename", "rename_axis", "set_names", "copy"):
            self.stack[-1].renamed |= {t.id for t in st.targets if isinstance(t, ast.Name)}
        names = [t for t in st.targets if isinstance(t, ast.Name)]
        if isinstance(st.value, ast.Name):
            names = names + [st.value]
        if len(names) > 1 and v.op not in ("num", "const", "tuple", "fn", "net"):
            fr = self.stack[-1]
            ids = {x.id for x in names if self.owner(x.id, fr) is fr and x.id in fr.env}
            for a in fr.alias:
                if a & ids:
                    a |= ids
                    break
            else:
                if len(ids) > 1:
                    fr.alias.append(ids)

    def note_view(self, st, v):
        """a name bound to an attribute of a shared object stands for the object itself, whatever its value"""
        holder = self.ev(st.value.value)
        if norm.is_path(holder) and holder.op in ("net", "sub", "cobj", "param") and v.op in ("set", "list", "dict", "glist"):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.stack[-1].views[t.id] = mk("attr", holder, st.value.attr)

    def s_AnnAssign(self, st):
        if st.value is not None:
            v = self.ev(st.value)
            self.assign(st.target, v, st)
            if isinstance(st.target, ast.Name):
                ty = annotation_type(st.annotation)
                if ty and v.op in ("call", "attr", "item", "elem", "opaque"):
                    self.types.setdefault(id(v), ty)

    def s_AugAssign(self, st):
        cur = self.ev(_load(st.target))
        r = self.ev(st.value)
        v = self.binop(st.op, cur, r, st)
        if isinstance(st.target, ast.Name) and norm.is_path(cur) and not norm.scalar_like(self, cur) and norm.mutable_path(self, cur):
            self.effect("store", {"obj": cur, "key": mk("inplace", type(st.op).__name__), "val": r}, st)
        self.assign(st.target, v, st, aug=True)

    def assign(self, t, v, st, aug=False):
        fr = self.stack[-1]
        if isinstance(t, ast.Name):
            f = self.owner(t.id, fr)
            if aug and v.op not in ("num", "const") and norm.inplace_op(self, f.env.get(t.id)):
                self.set_inplace(f, t.id, v)
            else:
                f.env[t.id] = v
                f.views.pop(t.id, None)
                f.renamed.discard(t.id)
                f.params0.pop(t.id, None)
                for a in f.alias:
                    a.discard(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            si = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, norm.item(self, v, mk("slice", const(i), NONE, NONE)), st)
                elif si and i > si[0]:
                    self.assign(e, norm.item(self, v, const(i - n)), st)
                else:
                    self.assign(e, norm.unpack(self, v, i, n), st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_slice(t.slice)
            self.store(t.value, o, k, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.store_attr(t.value, o, t.attr, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def set_inplace(self, f, name, new):
        """the object bound to a name changed: so did every alias"""
        old = f.env.get(name)
        if name in f.views:
            self.effect("store", {"obj": f.views[name], "key": mk("inplace", "change"), "val": new})
        f.env[name] = new
        for a in f.alias:
            if name in a:
                for o in a:
                    if o != name and f.env.get(o) is old:
                        f.env[o] = new

    def owner(self, name, fr):
        if fr.fnode is None or name in fr.locals or fr.parent is None:
            return fr
        p = fr.parent
        while p is not None:
            if name in p.env:
                return p
            p = p.parent
        return fr

    def store(self, base, o, k, v, st):
        """base[k] = v"""
        key = k
        obj = o
        kinds = {x.args[1] if x.op == "attr" else None for x in ends_of(o)}
        if len(kinds) == 1 and kinds <= {"loc", "at", "iloc", "iat", "values"}:
            obj = lift(lambda x: x.args[0], o) if nleaves(o) <= MAX_LEAVES else self.ev(base.value) if isinstance(base, ast.Attribute) else o
            key = norm.loc_key(*kinds, k)
            if isinstance(base, ast.Attribute):
                base = base.value
        self._store(base, obj, key, v, st)

    def series_place(self, base):
        """the place base denotes when it is one table of time-dependent data (whose present value is known)"""
        if isinstance(base, ast.Attribute):
            holder, key = self.ev(base.value), const(base.attr)
        elif isinstance(base, ast.Subscript):
            holder, key = self.ev(base.value), self.ev_slice(base.slice)
        else:
            return None
        if holder.op == "dynamic" and (holder, key) in self.heap:
            return mk("at", holder, (key,))
        return None

    def _store(self, base, obj, key, v, st):
        place = None
        if not all(norm.is_path(ob) for _, ob in leaves_of(obj)):
            place = self.series_place(base)
        for g, ob in leaves_of(obj):
            if place is not None and not norm.is_path(ob):
                ob = place
            if norm.is_path(ob) or norm.contains_path_root(ob):
                fr = self.stack[-1]
                g0 = fr.G
                fr.G = b_and(g0, g)
                tgt, kk = norm.canon_store(self, ob, key)
                if tgt.op == "static" and kk.op == "tuple" and kk.args and kk.args[0].op == "idx" and kk.args[0].args[0] is tgt:
                    kk = mk("tuple", kk.args[0].args[1], *kk.args[1:])
                cols = kk.args[1] if kk.op == "tuple" and len(kk.args) == 2 else kk
                if tgt.op == "static" and cols.op in ("list", "tuple") and 0 < len(cols.args) < 30 and all(is_str(c) for c in cols.args) and v.op != "list":
                    for c in cols.args:
                        k1 = mk("tuple", kk.args[0], c) if cols is not kk else c
                        v1 = v if v.op in ("const", "num") else norm.at(self, v, c)
                        self.effect("store", {"obj": tgt, "key": k1, "val": v1}, st)
                        self.heap_store(tgt, k1, v1)
                else:
                    parts = lift(lambda *x: mk("tuple", *x), *kk.args) if kk.op == "tuple" else kk
                    for h, k1 in leaves_of(parts) if cols.op == "ite" and 1 < nleaves(parts) <= 8 else ((TRUE, kk),):
                        # different columns in different cases
                        g1 = fr.G
                        fr.G = b_and(g1, h)
                        if fr.G is not FALSE:
                            v1 = v if h is TRUE else constrain(v, h)
                            self.effect("store", {"obj": tgt, "key": k1, "val": v1}, st)
                            self.heap_store(tgt, k1, v1)
                        fr.G = g1
                fr.G = g0
        self.store_within(base, obj, key, v, st)
        self.update_root(base, obj, key, v, st)

    def store_within(self, base, obj, key, v, st):
        """part of a fresh value held by an attribute of a shared object: object.attribute[key] = v"""
        if not isinstance(base, ast.Attribute) or any(norm.is_path(o) for _, o in leaves_of(obj)):
            return
        holder = self.ev(base.value)
        if holder.op == "dynamic" or not norm.is_path(holder) or norm.static_type(holder) in ("Network", "Components") and base.attr in ("static", "dynamic", "df", "pnl"):
            return
        tgt, kk = norm.canon_attr_store(self, holder, base.attr)
        if self.loops:
            self.effect("store", {"obj": norm.raw_item(tgt, kk), "key": key, "val": v}, st)
        else:
            self.effect("store", {"obj": tgt, "key": kk, "val": norm.upd(obj, key, v)}, st)
        self.heap_store(tgt, kk, norm.upd(obj, key, v))

    def heap_store(self, tgt, key, v):
        fr = self.stack[-1]
        g = self.gate(fr)
        if tgt.op == "net" and key in (const("model"), const("_model")):
            return
        if key.op == "tuple" and len(key.args) == 2 and not norm.is_positional(key.args[0]):
            # rows of one column: a later read of the column sees the rows replaced
            rows, col = key.args
            if tgt.op == "static" and rows.op == "idx" and rows.args[0] is tgt:
                rows = rows.args[1]
            if col.op in ("list", "tuple") and len(col.args) < 30 and all(is_str(c) for c in col.args):
                for c in col.args:
                    self.heap_store(tgt, mk("tuple", rows, c), norm.at(self, v, c) if v.op not in ("const", "num") else v)
                return
            if is_const(col) and isinstance(col.args[0], str) or col.op == "cat":
                if rows is norm.FULL:
                    return self.heap_store(tgt, col, v)
                old = self.heap.get((tgt, col))
                if old is None:
                    old = norm.raw_item(tgt, col)
                return self.heap_store(tgt, col, mk("updrow", old, rows, v))
        if key.op == "list" and key.args and len(key.args) < 30 and tgt.op == "static" and all(is_str(c) for c in key.args):
            for c in key.args:
                self.heap_store(tgt, c, norm.at(self, v, c) if v.op not in ("const", "num") else v)
            return
        if tgt.op == "at" and tgt.args[0].op == "dynamic" and len(tgt.args[1]) == 1 and norm.is_path(tgt):
            # entries of one time-dependent table
            dyn, a = tgt.args[0], tgt.args[1][0]
            old = self.heap.get((dyn, a))
            if old is None:
                old = tgt
            return self.heap_store(dyn, a, v if key is norm.FULL else norm.upd2(old, key, v))
        k = (tgt, key)
        if key.op in ("const", "cat") or tgt.op in ("dynamic",):
            if g is TRUE or k not in self.heap:
                base = norm.raw_item(tgt, key) if g is not TRUE else None
                self.heap[k] = v if g is TRUE else ite_safe(g, v, base)
            else:
                self.heap[k] = ite_safe(g, v, self.heap[k])

    def store_attr(self, base, o, name, v, st):
        if name in ("name", "names") and not norm.is_net_like(self, o):
            # index/column labels
            if o.op == "attr" and o.args[1] in ("index", "columns") or norm.is_data(o):
                name_ = base.value if isinstance(base, ast.Attribute) and base.attr in ("index", "columns") else base
                if self.keep_copies and not (isinstance(name_, ast.Name) and name_.id in self.stack[-1].renamed):
                    for g, ob in leaves_of(o):
                        if norm.is_path(ob.args[0] if ob.op == "attr" and ob.args[1] in ("index", "columns") else ob):
                            self.effect("store", {"obj": ob.args[0] if ob.op == "attr" else ob, "key": const(name), "val": v}, st)
                return
        for g, ob in leaves_of(o):
            if norm.is_path(ob) or norm.contains_path_root(ob):
                fr = self.stack[-1]
                g0 = fr.G
                fr.G = b_and(g0, g)
                tgt, kk = norm.canon_attr_store(self, ob, name)
                self.effect("store", {"obj": tgt, "key": kk, "val": v}, st)
                self.heap_store(tgt, kk, v)
                fr.G = g0
        self.update_root(base, o, norm.attr_key(o, name), v, st)

    def update_root(self, base, obj, key, v, st):
        """functional update of the local variable at the root of a store target"""
        if isinstance(base, ast.Name):
            f = self.owner(base.id, self.stack[-1])
            if base.id not in f.env:
                f = self.find_frame(base.id) or f
            cur = f.env.get(base.id)
            if cur is None:
                return
            if norm.is_path(cur):
                return
            self.set_inplace(f, base.id, norm.upd(cur, key, v))
            self._carry_type(cur, f.env[base.id])
        elif isinstance(base, ast.Subscript):
            o2 = self.ev(base.value)
            if o2.op == "attr" and o2.args[1] in ("loc", "at", "iloc"):
                return
            if norm.is_path(o2):
                return
            k2 = self.ev_slice(base.slice)
            self.update_root(base.value, o2, k2, norm.upd(obj, key, v), st)
        elif isinstance(base, ast.Attribute):
            o2 = self.ev(base.value)
            if norm.is_path(o2):
                return
            self.update_root(base.value, o2, norm.attr_key(o2, base.attr), norm.upd(obj, key, v), st)

    def _carry_type(self, a, b):
        ty = self.types.get(id(a))
        if ty:
            self.types.setdefault(id(b), ty)

    def find_frame(self, name):
        f = self.stack[-1]
        while f is not None:
            if name in f.env:
                return f
            f = f.parent
        return None

    # control ------------------------------------------------------------
    def s_If(self, st):
        c = norm.truth(self.ev(st.test))
        if c is TRUE:
            return self.block(st.body)
        if c is FALSE:
            return self.block(st.orelse)
        self.branch(c, lambda: self.block(st.body), lambda: self.block(st.orelse))

    def branch(self, c, then, els):
        fr = self.stack[-1]
        g0 = fr.G
        # gate already decides?
        if b_and(g0, c) is FALSE:
            return els()
        if b_and(g0, b_not(c)) is FALSE:
            return then()
        frames = self.chain(fr)
        saved = [dict(f.env) for f in frames]
        heap0 = dict(self.heap)
        fr.raised = False
        fr.G = b_and(g0, c)
        then()
        G1, raised1 = fr.G, getattr(fr, "raised", False)
        env1 = [f.env for f in frames]
        heap1 = self.heap
        for f, s in zip(frames, saved):
            f.env = s
        self.heap = heap0 if heap1 is not heap0 else heap0
        self.heap = dict(heap0)
        fr.raised = False
        fr.G = b_and(g0, b_not(c))
        els()
        G0, raised0 = fr.G, getattr(fr, "raised", False)
        env0 = [f.env for f in frames]
        heap00 = self.heap
        if G1 is FALSE and G0 is FALSE:
            fr.G = FALSE
            return
        if G1 is FALSE:
            fr.G = constrain(G0, b_not(c)) if raised1 else G0
            if raised1:
                fr.G = b_and(g0, fr.G)
            return
        if G0 is FALSE:
            for f, e in zip(frames, env1):
                f.env = e
            self.heap = heap1
            fr.G = constrain(G1, c) if raised0 else G1
            if raised0:
                fr.G = b_and(g0, fr.G)
            return
        # partial raises inside the branches are treated as not returning to this point
        if raised1:
            G1 = b_and(b_and(g0, c), constrain(G1, c)) if False else G1
        fr.G = b_or(G1, G0)
        for f, e1, e0 in zip(frames, env1, env0):
            f.env = self.merge_env(c, e1, e0)
        self.heap = self.merge_heap(c, heap1, heap00)

    def chain(self, fr):
        out = []
        while fr is not None:
            if fr not in out:
                out.append(fr)
            fr = fr.parent
        return out

    def merge_env(self, c, e1, e0):
        out = {}
        for k in list(e1) + [k for k in e0 if k not in e1]:
            a, b = e1.get(k), e0.get(k)
            if a is None:
                out[k] = b
            elif b is None or a is b:
                out[k] = a
            else:
                out[k] = ite_safe(c, a, b)
                for x in (a, b):
                    ty = self.types.get(id(x))
                    if ty:
                        self.types.setdefault(id(out[k]), ty)
        return out

    def merge_heap(self, c, h1, h0):
        out = {}
        for k in set(h1) | set(h0):
            a, b = h1.get(k), h0.get(k)
            if a is None:
                a = norm.raw_item(*k)
            if b is None:
                b = norm.raw_item(*k)
            out[k] = a if a is b else ite_safe(c, a, b)
        return out

    def s_Try(self, st):
        fr = self.stack[-1]
        if st.handlers and all(_cannot_raise(x) for x in st.body):
            self.block(st.body)
            self.block(st.orelse)
            self.block(st.finalbody)
            return
        g0 = fr.G
        frames = self.chain(fr)
        saved = [dict(f.env) for f in frames]
        heap0 = dict(self.heap)
        ne = len(self.effects)
        nr = len(fr.returns)
        self.block(st.body)
        body_returns = range(nr, len(fr.returns))
        # digest of what the body computes: new bindings
        names = []
        for f, s in zip(frames, saved):
            for k, v in f.env.items():
                if s.get(k) is not v:
                    names.append(v)
        eff = [e.data for e in self.effects[ne:]]
        for d in eff:
            if isinstance(d, dict):
                names.extend(v for v in d.values() if isinstance(v, T))
        names.extend(v for g, v in fr.returns[-2:])
        known = {v.key for s in saved for v in s.values() if isinstance(v, T)}
        if st.handlers and not eff and all(isinstance(x, (ast.Assign, ast.Pass)) for x in st.body) and all(_total(v, known) for v in names):
            self.block(st.orelse)
            self.block(st.finalbody)
            return
        dig = mk("tuple", *sorted({n.key: n for n in names if n.op not in ("num", "const")}.values()))
        failed = any(norm.always_nokey(v) for v in ([v for _, v in fr.returns[nr:][:1]] if body_returns else names))
        bodyG = fr.G
        env_b = [f.env for f in frames]
        heap_b = self.heap
        if st.orelse and bodyG is not FALSE:
            self.block(st.orelse)
            bodyG = fr.G
            env_b = [f.env for f in frames]
            heap_b = self.heap
        cond_any = FALSE
        outs = []
        for h in st.handlers:
            ty = "*"
            if h.type is not None:
                if isinstance(h.type, ast.Tuple):
                    ty = "|".join(sorted(dotted_name(e) or "?" for e in h.type.elts))
                else:
                    ty = dotted_name(h.type) or "?"
            cond = mk("exc", const(ty), dig)
            condb = mk("ite", cond, TRUE, FALSE)
            if ty == "KeyError" and len(dig.args) == 1 and dig.args[0].op == "at" and dig.args[0].args[0].op == "dict" and len(dig.args[0].args) == 2:
                # looking a key up in a known table fails exactly if the table has no such key
                key = dig.args[0].args[1]
                key = key[0] if isinstance(key, tuple) and len(key) == 1 else mk("tuple", *key) if isinstance(key, tuple) else key
                condb = b_not(norm.truth(norm.contains_term(self, key, dig.args[0].args[0])))
            if failed and not eff and h is st.handlers[0] and (ty == "*" or {"KeyError", "LookupError", "Exception", "BaseException"} & set(ty.split("|"))):
                condb = TRUE        # the body certainly looks up a key that is not there
            for f, s in zip(frames, saved):
                f.env = dict(s)
            self.heap = dict(heap0)
            fr.G = b_and(g0, b_and(b_not(cond_any), condb))
            if h.name:
                fr.env[h.name] = mk("excval", const(ty), dig)
            fr.raised = False
            self.block(h.body)
            outs.append((condb, fr.G, [f.env for f in frames], self.heap, getattr(fr, "raised", False)))
            cond_any = b_or(cond_any, condb)
        if cond_any is not FALSE:       # the body only returns if nothing was raised before
            for i in body_returns:
                fr.returns[i] = (b_and(fr.returns[i][0], b_not(cond_any)), fr.returns[i][1])
        # merge: handlers that fall through
        env, heap, G = env_b, heap_b, bodyG
        for condb, hG, henv, hheap, raised in reversed(outs):
            if hG is FALSE:
                if not raised and G is not FALSE:
                    G = b_and(G, b_not(condb))
                continue
            if G is FALSE:
                env, heap, G = henv, hheap, hG
                continue
            env = [self.merge_env(condb, a, b) for a, b in zip(henv, env)]
            heap = self.merge_heap(condb, hheap, heap)
            G = b_or(hG, b_and(G, b_not(condb)))
        for f, e in zip(frames, env):
            f.env = e
        self.heap = heap
        fr.G = G
        if st.finalbody:
            Gs, fr.G = fr.G, g0
            self.block(st.finalbody)
            fr.G = Gs if fr.G is not FALSE else FALSE

    def s_With(self, st):
        for it in st.items:
            c = self.ev(it.context_expr)
            if c.op == "new":
                self.effect("call", {"call": mk("with_", c)}, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, c, st)
        self.block(st.body)

    def s_While(self, st):
        self.do_loop(mk("while", const(0)), None, st, st.body, test=st.test)
        if st.orelse:
            self.block(st.orelse)

    def s_For(self, st):
        it = self.ev(st.iter)
        self.write_back = None
        call = st.iter
        if (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr in ("items", "values")
                and isinstance(call.func.value, ast.Name) and call.func.value.id in self.stack[-1].env
                and self.stack[-1].env[call.func.value.id].op == "dict"):
            # the values of a local dict may be changed in place by the body
            tgt = st.target
            if call.func.attr == "items":
                tgt = tgt.elts[1] if isinstance(tgt, ast.Tuple) and len(tgt.elts) == 2 else None
            if isinstance(tgt, ast.Name) and tgt.id not in stored_names(st.body):
                self.write_back = (call.func.value.id, tgt.id, call.func.attr)
        if (it.op == "product" and isinstance(st.target, (ast.Tuple, ast.List)) and len(st.target.elts) == len(it.args) > 1
                and not any(isinstance(x, ast.Break) for x in walk_loop(st.body))):
            # one loop per factor
            fr = self.stack[-1]
            names = []
            for i, a in enumerate(it.args):
                nm = f"_factor{len(self.stack)}_{id(st)}_{i}"
                fr.env[nm] = a
                if fr.fnode is not None:
                    fr.locals.add(nm)
                names.append(nm)
            body = st.body
            for nm, t in list(zip(names, st.target.elts))[:0:-1]:
                body = [ast.copy_location(ast.For(target=t, iter=ast.copy_location(ast.Name(nm, ast.Load()), st), body=body, orelse=[]), st)]
            self.for_over(it.args[0], st.target.elts[0], body, st)
            for nm in names:
                fr.env.pop(nm, None)
        else:
            self.for_over(it, st.target, st.body, st)
        if st.orelse:
            self.block(st.orelse)

    def s_Break(self, st):
        fr = self.stack[-1]
        if getattr(fr, "breaks", None) is not None:
            fr.breaks.append((fr.G, dict(fr.env), dict(self.heap)))
        fr.G = FALSE

    def s_Continue(self, st):
        fr = self.stack[-1]
        if getattr(fr, "conts", None) is not None:
            fr.conts.append((fr.G, dict(fr.env), dict(self.heap)))
        fr.G = FALSE

    def for_over(self, it, target, body, st):
        items = norm.iterate(self, it)
        if items is not None and len(items) <= MAX_UNROLL:
            return self.unroll(items, target, body, st)
        if it.op == "ite" and nleaves(it) <= 12:
            opts = [norm.iterate(self, v) for _, v in leaves(it)]
            if all(o is not None and len(o) <= MAX_UNROLL for o in opts):
                for (g, v), o in zip(leaves(it), opts):
                    self.branch(g, lambda o=o: self.unroll(o, target, body, st), lambda: None)
                return
        parts = norm.split_iter(self, it)
        if parts is not None:
            for g, p in parts:
                if g is TRUE:
                    self.for_over(p, target, body, st)
                else:
                    self.branch(g, lambda p=p: self.for_over(p, target, body, st), lambda: None)
            return
        self.do_loop(it, target, st, body)

    def unroll(self, items, target, body, st):
        fr = self.stack[-1]
        g0 = fr.G
        outer_conts, outer_breaks = getattr(fr, "conts", None), getattr(fr, "breaks", None)
        done = FALSE
        brk_states = []
        wb, self.write_back = getattr(self, "write_back", None), None
        for g, v in items:
            if fr.G is FALSE:
                break

            def one():
                fr.conts, fr.breaks = [], []
                gin = fr.G
                self.assign(target, v, st)
                self.block(body)
                # merge continue states
                for cg, cenv, cheap in fr.conts:
                    self.join_state(fr, cg, cenv, cheap)
                if wb and wb[2] == "items" and v.op in ("tuple", "list") and len(v.args) == 2:
                    cur, new = fr.env.get(wb[0]), fr.env.get(wb[1])
                    if cur is not None and cur.op == "dict" and new is not None and new is not v.args[1] and dict(cur.args[0]).get(v.args[0]) is v.args[1]:
                        d = dict(cur.args[0])
                        d[v.args[0]] = new
                        fr.env[wb[0]] = norm.mkdict(d)
                if fr.breaks:
                    brk_states.extend(fr.breaks)

            if g is TRUE:
                one()
            else:
                self.branch(g, one, lambda: None)
        for bg, benv, bheap in brk_states:
            self.join_state(fr, bg, benv, bheap)
        fr.conts, fr.breaks = outer_conts, outer_breaks

    def join_state(self, fr, g, env, heap):
        """join a state reaching here under frame gate g"""
        if g is FALSE:
            return
        if fr.G is FALSE:
            fr.env, self.heap, fr.G = env, heap, g
            return
        fr.env = self.merge_env(g, env, fr.env)
        self.heap = self.merge_heap(g, heap, self.heap)
        fr.G = b_or(fr.G, g)

    def handed_over(self, body):
        """local names passed to functions which change their argument in place"""
        out = []
        for st in body:
            for c in ast.walk(st):
                if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name)):
                    continue
                args = [a for a in list(c.args) + [k.value for k in c.keywords] if isinstance(a, ast.Name) and self.find_frame(a.id) is not None]
                if not args:
                    continue
                try:
                    f = self.lookup(c.func.id)
                except Exception:
                    continue
                if f is None or f.op not in ("fn", "closure") or f.op == "fn" and f.args[0] in self.prims:
                    continue
                node = self.closures[f.key].node if f.op == "closure" else self.repo.function(f.args[0])[1]
                if isinstance(node, ast.Lambda):
                    continue
                mut = getattr(node, "_vf_mutates", None)
                if mut is None:
                    ps = [a.arg for a in node.args.posonlyargs + node.args.args]
                    mut = node._vf_mutates = set(assigned_names(node.body)) & set(ps)
                if mut:
                    out += [a.id for a in args if a.id not in out]
        return out

    def do_loop(self, it, target, st, body, test=None, fixed=frozenset(), held=None):
        fr = self.stack[-1]
        it_in = it
        snap = (len(self.effects), dict(self.heap), [dict(f.env) for f in self.chain(fr)], fr.G, fr.outer, list(fr.returns), fr.yields)
        it = norm.canon_iter(self, it)
        it, elem, value, pre = norm.open_iter(self, it)
        depth = elem.args[1]
        frames = self.chain(fr)
        outer_conts, outer_breaks = getattr(fr, "conts", None), getattr(fr, "breaks", None)
        names = assigned_names(body)
        for nme in self.handed_over(body):
            if nme not in names:
                names.append(nme)
        tnames = assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))]) if target is not None else []
        if held is None:
            # parameters given as constants: supposed unchanged by the body, checked below
            a = getattr(fr.fnode, "args", None)
            ps = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} if isinstance(a, ast.arguments) else ()
            held = frozenset(n for n in names if n in ps and n not in tnames and n in fr.env and is_const(fr.env[n]))
        at_start = {n: fr.env[n] for n in held}
        fixed = fixed | held
        carried = []
        rebound = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} if isinstance(body, list) else set()
        for nme in names:
            if nme in tnames:
                continue
            f = self.find_frame(nme)
            if f is not None and nme not in fixed and (not norm.all_paths(f.env[nme]) or nme in rebound) and f.env[nme].op not in ("closure", "fn", "cls"):
                carried.append((nme, f))
        init = {}
        lv = {}
        lvd = {}
        if test is not None:
            it = mk("while", const(0))
            elem, value, pre = None, None, TRUE
        for i, (nme, f) in enumerate(carried):
            init[nme] = f.env[nme]
            # a carried value is identified by what it starts from, not by its name
            dup = sum(1 for o in init if o != nme and init[o] is init[nme])
            lv[nme] = mk("loopvar", it, depth, init[nme], dup)
            ty = self.types.get(id(init[nme]))
            if ty:
                self.types[id(lv[nme])] = ty
            if init[nme].op == "dict" and init[nme].args[0] and all(is_const(k) for k, _ in init[nme].args[0]):
                lvd[nme] = {k: v if (nme, k) in fixed else mk("loopvar", it, depth, v, k) for k, v in init[nme].args[0]}
                f.env[nme] = norm.mkdict(lvd[nme])
            else:
                f.env[nme] = lv[nme]
        heap0 = dict(self.heap)
        if test is not None:
            tc = self.ev(test)
            it = mk("while", norm.truth(tc))
        self.loops.append(it)
        fr.loopstack.append(it)
        g0 = fr.G
        out0 = fr.outer
        fr.conts, fr.breaks = [], []
        # inside the loop the frame gate restarts; the entry gate moves to outer
        fr.outer = b_and(fr.outer, g0)
        fr.G = TRUE
        if target is not None:
            self.assign(target, value, st)
        nret = len(fr.returns)
        if pre is TRUE:
            self.block(body)
        else:
            self.branch(pre, lambda: self.block(body), lambda: None)
        for cg, cenv, cheap in fr.conts:
            self.join_state(fr, cg, cenv, cheap)
        breaks = fr.breaks
        bg = FALSE
        for g, benv, bheap in breaks:
            bg = b_or(bg, g)
        bodyenv = {nme: f.env.get(nme, lv[nme]) for nme, f in carried}
        for g, benv, bheap in breaks:
            for nme, f in carried:
                if f is fr and nme in benv and benv[nme] is not bodyenv[nme]:
                    bodyenv[nme] = ite_safe(g, benv[nme], bodyenv[nme])
        same = {nme for nme, f in carried if bodyenv[nme] is lv[nme] or nme in lvd and bodyenv[nme] is norm.mkdict(lvd[nme])}
        for nme, d in lvd.items():
            vals = [v for _, v in leaves(bodyenv[nme])]
            if all(v.op == "dict" for v in vals):
                same |= {(nme, k) for k, x in d.items() if all(dict(v.args[0]).get(k) is x for v in vals)}
        wrong = {n for n in held if fr.env.get(n) is not at_start[n] or any(benv.get(n) is not at_start[n] for _, benv, _ in breaks)}
        if wrong or same and not fixed - held:
            # values the body never changes: analyse the body again with them fixed
            del self.effects[snap[0]:]
            self.loops.pop()
            fr.loopstack.pop()
            self.heap = snap[1]
            for f, e in zip(self.chain(fr), snap[2]):
                f.env = e
            fr.G, fr.outer, fr.returns, fr.yields = snap[3], snap[4], snap[5], snap[6]
            fr.conts, fr.breaks = outer_conts, outer_breaks
            return self.do_loop(it_in, target, st, body, test, frozenset() if wrong else frozenset(same), held - wrong)
        exit_returns = len(fr.returns) > nret
        raised_all = fr.G is FALSE and not breaks and not exit_returns
        self.loops.pop()
        fr.loopstack.pop()
        fr.outer = out0
        fr.G = g0
        if exit_returns:
            # paths that returned do not continue
            rg = FALSE
            new = []
            for g, v in fr.returns[nret:]:
                rg = b_or(rg, g)
                new.append((b_and(g0, g), v))
            fr.returns[nret:] = new
            fr.G = b_and(g0, b_not(rg))
        fr.conts, fr.breaks = outer_conts, outer_breaks
        itx = it if bg is FALSE else mk("until", it, bg)
        for i, (nme, f) in enumerate(carried):
            if nme in lvd:
                vals = [v for _, v in leaves(bodyenv[nme])]
                if all(v.op == "dict" and all(is_const(k) for k, _ in v.args[0]) for v in vals):
                    old = dict(init[nme].args[0])
                    new = {}
                    for k in sorted({k for v in vals for k, _ in v.args[0]}, key=lambda k: k.key):
                        bv = lift(lambda d, k=k: dict(d.args[0]).get(k, mk("missing")), bodyenv[nme])
                        new[k] = norm.summarise(self, itx, lvd[nme].get(k, mk("missing")), old.get(k, mk("missing")), bv, set(lvd[nme].values()))
                    f.env[nme] = norm.mkdict(new)
                    continue
                bodyenv[nme] = substitute(bodyenv[nme], {id(v): mk("dictget", lv[nme], k) for k, v in lvd[nme].items()})
            f.env[nme] = norm.summarise(self, itx, lv[nme], init[nme], bodyenv[nme], set(lv.values()))
            ty = self.types.get(id(init[nme]))
            if ty:
                self.types.setdefault(id(f.env[nme]), ty)
        for nme in names + tnames:
            if nme in lv:
                continue
            f = self.find_frame(nme)
            if f is not None and f is fr and nme in fr.env and norm.mentions_elem(fr.env[nme], elem):
                fr.env[nme] = mk("last", itx, fr.env[nme])
        # heap locations written in the loop
        for k, v in list(self.heap.items()):
            if heap0.get(k) is not v:
                base = heap0.get(k)
                if norm.mentions_elem(k[1], elem) or norm.mentions_elem(k[0], elem):
                    del self.heap[k]
                else:
                    self.heap[k] = mk("looped", itx, base if base is not None else norm.raw_item(*k), v)
        self.carry(lv, lvd, bodyenv, snap[0], frames, fr, nret)

    def carry(self, lv, lvd, bodyenv, first, frames, fr, nret):
        """values carried from one iteration to the next and read there are what the body makes of them"""
        each = {}
        for nme, v in lv.items():
            if nme not in lvd:
                each[id(v)] = (v, bodyenv[nme])
        if not each:
            return
        live, seen = set(), set()
        work = [v for f in frames for v in f.env.values()] + [v for v in self.heap.values()] + [x for g, v in fr.returns[nret:] for x in (g, v)]
        for e in self.effects[first:]:
            work += [e.gate, *e.loops, *(e.data.values() if isinstance(e.data, dict) else ())]
        if fr.yields is not None:
            work.append(fr.yields)
        while work:
            x = work.pop()
            if isinstance(x, tuple):
                work.extend(x)
            elif isinstance(x, T) and id(x) not in seen:
                seen.add(id(x))
                if id(x) in each:
                    live.add(id(x))
                work.extend(x.args)
        if not live:
            return
        mapping = {}
        for i in live:
            v, b = each[i]
            mapping[i] = mk("loopvar", *v.args, b)
            if i in self.types:
                self.types[id(mapping[i])] = self.types[i]
        memo = {}

        def new(x):
            if isinstance(x, T):
                return substitute(x, mapping, memo)
            return tuple(map(new, x)) if isinstance(x, tuple) else x

        for e in self.effects[first:]:
            e.gate = new(e.gate)
            e.loops = tuple(map(new, e.loops))
            if isinstance(e.data, dict):
                e.data = {k: new(x) for k, x in e.data.items()}
        for f in frames:
            for k, x in f.env.items():
                f.env[k] = new(x)
        for k, x in self.heap.items():
            self.heap[k] = new(x)
        fr.returns[nret:] = [(new(g), new(x)) for g, x in fr.returns[nret:]]
        if fr.yields is not None:
            fr.yields = new(fr.yields)

    def s_Match(self, st):
        self.note("match statement not modelled", st)

    # ------------------------------------------------------------ expressions
    def ev(self, e, stmt=False):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.opaque("expr " + type(e).__name__, node=e)
        if isinstance(e, ast.Call):
            return m(e, stmt)
        return m(e)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def lookup(self, name, node=None):
        fr = self.stack[-1]
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                return constrain(v, self.gate(fr)) if v.op == "ite" else v
            if name in f.imports:
                return self.resolved(self.repo.resolve(f.imports[name]), name)
            f = f.parent
        if node is not None and not hasattr(builtins, name) and self.repo.in_module(fr.module, name) is None and not bound_in(fr, name):
            self.effect("raise", {"exc": const("NameError")}, node)     # bound nowhere
        return self.module_name(fr.module, name)

    def module_name(self, mod, name):
        r = self.repo.in_module(mod, name)
        if r is None:
            return mk("ext", "builtins." + name)
        return self.resolved(r, name)

    def resolved(self, r, name):
        if r[0] == "fn":
            return mk("fn", r[1].name + "." + r[2].name)
        if r[0] == "cls":
            return mk("cls", r[1].name + "." + r[2].name)
        if r[0] == "mod":
            return mk("mod", r[1].name)
        if r[0] == "ext":
            return norm.external(r[1])
        if r[0] == "val":
            key = (r[1].name, id(r[2]))
            if key not in self.globals_cache:
                self.globals_cache[key] = mk("ext", r[1].name + "." + name)
                v = norm.module_value(self, r[1], name, r[2])
                if v is None and norm.filled_later(r[1], name, r[2]):
                    return self.globals_cache[key]      # what it holds is not what it was made with
                if v is None:
                    v = self.eval_in_module(r[1], r[2])
                self.globals_cache[key] = v
            return self.globals_cache[key]
        return mk("ext", name)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.attr(o, e.attr, e)

    def attr(self, o, name, node=None):
        if o.op == "ite" and nleaves(o) <= 40:
            return lift(lambda x: self.attr(x, name, node), o)
        return norm.attr(self, o, name, node)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_slice(e.slice)
        return norm.item(self, o, k)

    def ev_slice(self, s):
        return self.ev(s)

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.ev(x)
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e):
        return self.seq("tuple", e.elts)

    def e_List(self, e):
        return self.seq("list", e.elts)

    def seq(self, op, elts):
        parts = []
        cur = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                its = norm.iterate(self, v)
                if its is not None and all(g is TRUE for g, _ in its):
                    cur.extend(t for _, t in its)
                else:
                    parts.append(mk(op, *cur))
                    parts.append(v)
                    cur = []
            else:
                cur.append(self.ev(x))
        if not parts:
            return mk(op, *cur)
        parts.append(mk(op, *cur))
        return concat(parts)

    def e_Set(self, e):
        v = self.seq("list", e.elts)
        if v.op == "list":
            return norm.mkset(v.args)
        return mk("setof", v)

    def e_Dict(self, e):
        parts = [{}]
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v)
                if x.op == "dict" and isinstance(parts[-1], dict):
                    parts[-1].update(dict(x.args[0]))
                else:
                    parts.append(x)
            else:
                key = self.ev(k)
                if not isinstance(parts[-1], dict):
                    parts.append({})
                parts[-1][key] = self.ev(v)
        return norm.dictmerge([norm.mkdict(x) if isinstance(x, dict) else x for x in parts])

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                if v.format_spec is not None:
                    x = mk("fmt", x, self.ev(v.format_spec))
                parts.append(norm.to_str(x))
        return lift(lambda *p: cat(list(p)), *parts)

    def e_FormattedValue(self, e):
        return norm.to_str(self.ev(e.value))

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)

    def binop(self, op, a, b, node=None):
        return lift(lambda x, y: norm.binop(self, type(op).__name__, x, y), a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        o = type(e.op).__name__
        if o == "Not":
            return b_not(norm.truth(v))
        if o == "USub":
            if v.op == "const" and isinstance(v.args[0], float):
                return const(-v.args[0])
            return neg(v)
        if o == "Invert":
            return e_not(v)
        return v

    def e_BoolOp(self, e):
        vals = e.values
        # short circuit: later operands are evaluated under the gate of the earlier ones
        v = self.ev(vals[-1]) if len(vals) == 1 else None
        out = self.ev(vals[0])
        for x in vals[1:]:
            c = norm.truth(out)
            isand = isinstance(e.op, ast.And)
            if c is TRUE:
                if isand:
                    out = self.ev(x)
                continue
            if c is FALSE:
                if not isand:
                    out = self.ev(x)
                continue
            fr = self.stack[-1]
            g0 = fr.G
            fr.G = b_and(g0, c if isand else b_not(c))
            y = self.ev(x)
            fr.G = g0
            if not isand and out.op == "param" and y in (norm.mkdict({}), mk("list")):
                # an empty container in place of None
                c = b_not(norm.truth(norm.compare(self, "Is", out, NONE)))
            if norm.is_bool(out) and norm.is_bool(y):
                y = norm.truth(y)
            if norm.is_bool(out) :
                out = ite_safe(c, y, FALSE) if isand else ite_safe(c, TRUE, y)
            else:
                out = ite_safe(c, y, out) if isand else ite_safe(c, out, y)
        return out

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            r = norm.compare(self, type(op).__name__, left, right)
            res = r if res is None else b_and(norm.truth(res), norm.truth(r))
            left = right
        return res

    def e_IfExp(self, e):
        c = norm.truth(self.ev(e.test))
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        fr = self.stack[-1]
        g0 = fr.G
        fr.G = b_and(g0, c)
        a = self.ev(e.body) if fr.G is not FALSE else None
        fr.G = b_and(g0, b_not(c))
        b = self.ev(e.orelse) if fr.G is not FALSE else None
        fr.G = g0
        if a is None:
            return b
        if b is None:
            return a
        return ite_safe(c, a, b)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Lambda(self, e):
        return self.make_closure(e)

    def e_Starred(self, e):
        return mk("star", self.ev(e.value))

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        self.do_yield(e)
        return NONE

    e_YieldFrom = e_Yield

    def e_ListComp(self, e):
        return self.compr("list", e.generators, e.elt)

    def e_GeneratorExp(self, e):
        return self.compr("list", e.generators, e.elt)

    def e_SetComp(self, e):
        r = self.compr("list", e.generators, e.elt)
        if r.op == "list":
            return norm.mkset(r.args)
        return mk("setof", r)

    def e_DictComp(self, e):
        r = self.compr("list", e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()))
        if r.op == "list":
            return norm.mkdict({norm.item(self, x, const(0)): norm.item(self, x, const(1)) for x in r.args})
        if r.op == "comp" and r.args[3] is TRUE and r.args[2].op == "list" and len(r.args[2].args) == 1 and r.args[2].args[0].op == "tuple":
            k, v = r.args[2].args[0].args
            return mk("updover", norm.mkdict({}), r.args[1], k, v)
        its = norm.iterate(self, r)
        gates = {g for g, _ in its} if its is not None else ()
        if its is not None and len(gates - {TRUE}) <= 3 and all(x.op == "tuple" and len(x.args) == 2 and is_const(x.args[0]) for _, x in its):
            out = norm.mkdict({})
            def put(d, k, v):
                return lift(lambda y: norm.mkdict({**dict(y.args[0]), k: v}), d)
            for g, x in its:
                new = put(out, *x.args)
                out = new if g is TRUE else ite(g, new, out)
            return out
        return mk("dictof", r)

    def compr(self, kind, gens, elt):
        fr = self.stack[-1]
        sub = Frame(fr.module, fr.fnode, {}, parent=fr, cls=fr.cls, outer=self.gate())
        sub.locals = set(assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(0)) for g in gens]))
        # comprehension scope: names assigned are local, walrus goes to parent
        self.stack.append(sub)
        try:
            return self._compr(gens, 0, elt, sub)
        finally:
            self.stack.pop()

    def _compr(self, gens, i, elt, sub):
        if i == len(gens):
            return mk("list", self.ev(elt))
        g = gens[i]
        it = self.ev(g.iter)
        return self._compr_over(it, gens, i, elt, sub)

    def _compr_over(self, it, gens, i, elt, sub):
        g = gens[i]
        if it.op == "product" and isinstance(g.target, (ast.Tuple, ast.List)) and len(g.target.elts) == len(it.args) > 1:
            new = []
            for k, (a, t) in enumerate(zip(it.args, g.target.elts)):
                nm = f"_factor{len(self.stack)}_{id(g)}_{k}"
                sub.env[nm] = a
                sub.locals.add(nm)
                new.append(ast.comprehension(target=t, iter=ast.copy_location(ast.Name(nm, ast.Load()), elt), ifs=[], is_async=0))
            new[-1].ifs = g.ifs
            return self._compr(gens[:i] + new + gens[i + 1:], i, elt, sub)
        items = norm.iterate(self, it)
        G0 = sub.G
        if items is not None and len(items) <= MAX_UNROLL:
            parts = []
            for gg, v in items:
                env0 = dict(sub.env)
                sub.G = b_and(G0, gg)
                self.assign(g.target, v, g.target)
                cond = gg
                for c in g.ifs:
                    cc = norm.truth(self.ev(c))
                    cond = b_and(cond, cc)
                    sub.G = b_and(G0, cond)
                    if cond is FALSE:
                        break
                if cond is not FALSE:
                    p = self._compr(gens, i + 1, elt, sub)
                    if cond is not TRUE:
                        p = ite_safe(cond, p, mk("list"))
                    parts.append(p)
                sub.env = env0
                sub.G = G0
            return lift(lambda *ps: concat(list(ps)), *parts) if parts else mk("list")
        if it.op == "ite" and nleaves(it) <= 12:
            return lift(lambda x: self._compr_over(x, gens, i, elt, sub), it)
        sp = norm.split_iter(self, it)
        if sp is not None:
            parts = []
            for gg, p in sp:
                sub.G = b_and(G0, gg)
                v = self._compr_over(p, gens, i, elt, sub)
                sub.G = G0
                parts.append(v if gg is TRUE else ite_safe(gg, v, mk("list")))
            return lift(lambda *ps: concat(list(ps)), *parts) if parts else mk("list")
        it = norm.canon_iter(self, it)
        it, elem, value, pre = norm.open_iter(self, it)
        self.loops.append(it)
        env0 = dict(sub.env)
        out0 = sub.outer
        sub.outer = b_and(sub.outer, G0)
        sub.G = pre
        try:
            self.assign(g.target, value, g.target)
            cond = pre
            for c in g.ifs:
                cond = b_and(cond, norm.truth(self.ev(c)))
                sub.G = cond
            body = self._compr(gens, i + 1, elt, sub)
        finally:
            self.loops.pop()
            sub.env = env0
            sub.outer = out0
            sub.G = G0
        return norm.mkcomp(it, body, cond, elem)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, stmt=False):
        f = self.ev_callee(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                its = norm.iterate(self, v)
                if its is not None and all(g is TRUE for g, _ in its):
                    args.extend(t for _, t in its)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if v.op == "dict" and all(is_str(kk) for kk, _ in v.args[0]):
                    for kk, vv in v.args[0]:
                        kwargs[kk.args[0]] = vv
                elif v.op == "ite" and all(x.op == "dict" and all(is_str(kk) for kk, _ in x.args[0]) for _, x in leaves(v)):
                    keys = sorted({kk.args[0] for _, x in leaves(v) for kk, _ in x.args[0]})
                    for kk in keys:
                        kwargs[kk] = lift(lambda x, kk=kk: dict((a.args[0], b) for a, b in x.args[0]).get(kk, mk("missing")), v)
                elif v.op == "dictmerge" and sum(x.op != "dict" for x in v.args) == 1 and all(x.op != "dict" or all(is_str(kk) for kk, _ in x.args[0]) for x in v.args) \
                        and "**" not in kwargs:
                    # known keys are passed by name, the rest stays unknown (a key given twice would be an error)
                    for x in v.args:
                        if x.op == "dict":
                            for kk, vv in x.args[0]:
                                kwargs[kk.args[0]] = vv
                        else:
                            kwargs["**"] = x
                else:
                    kwargs["**"] = v if "**" not in kwargs else norm.dictmerge([kwargs["**"], v])
            else:
                kwargs[k.arg] = v
        self.last_inplace = None
        r = self.call(f, args, kwargs, e, stmt)
        if self.last_inplace is not None:
            self.write_arguments(e, f)
        return r

    def write_arguments(self, e, f):
        """objects the callee changed in place: update the caller's variables"""
        node, new, start = self.last_inplace
        self.last_inplace = None
        if f.op == "closure":
            same = self.closures[f.key].node is node
        elif f.op in ("fn", "bound_method"):
            same = isinstance(f.args[-1], str) and self.repo.function(f.args[-1])[1] is node
        else:
            same = False
        if not same:
            return
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        if f.op == "bound_method" and ps and not any("staticmethod" in ast.unparse(d) for d in node.decorator_list):
            ps = ps[1:]
        where = {}
        for i, a in enumerate(e.args):
            if isinstance(a, ast.Starred):
                break
            if i < len(ps):
                where[ps[i]] = a
        for k in e.keywords:
            if k.arg is not None:
                where[k.arg] = k.value
        for p, v in new.items():
            a = where.get(p)
            if isinstance(a, (ast.Name, ast.Subscript, ast.Attribute)):
                norm.rebind(self, a, start[p], v)

    def ev_callee(self, f):
        return self.ev(f)

    def call(self, f, args, kwargs, node=None, stmt=False):
        if f.op == "ite" and (nleaves(f) <= 12 or nleaves(f) <= 64 and len({x.key for _, x in leaves(f)}) == 2):
            fr = self.stack[-1]
            g0 = fr.G
            res = None
            ways = {}
            for g, x in leaves(f):
                ways[x.key] = (b_or(ways[x.key][0], g) if x.key in ways else g, x)
            for g, x in reversed(list(ways.values())):
                fr.G = b_and(g0, g)
                if fr.G is FALSE:
                    continue
                r = self.call(x, args, kwargs, node, stmt)
                res = r if res is None else ite_safe(g, r, res)
            fr.G = g0
            return res
        r = norm.call(self, f, args, kwargs, node, stmt)
        if r is not None:
            return r
        r = self.try_inline(f, args, kwargs, node)
        if r is not None:
            return r
        return norm.generic_call(self, f, args, kwargs, node, stmt)

    def try_inline(self, f, args, kwargs, node=None):
        if len(self.stack) > MAX_DEPTH:
            return None
        if f.op == "closure":
            c = self.closures[f.key]
            if isinstance(c.node, ast.Lambda):
                env = self.bind(c.module, c.node, args, kwargs)
                if env is None:
                    return None
                fr = Frame(c.module, c.node, env, parent=c.frame, cls=c.cls, outer=self.gate())
                self.stack.append(fr)
                try:
                    return self.ev(c.node.body)
                finally:
                    self.stack.pop()
            if any(s.fnode is c.node for s in self.stack):
                env = self.bind(c.module, c.node, args, kwargs)
                return None if env is None else mk("recur", tuple(env[a] for a in sorted(env) if isinstance(env[a], T)))
            return self.call_function(c.module, c.node, c.cls, args, kwargs, parent=c.frame)
        if f.op == "fn":
            mod, nd, cls = self.repo.function(f.args[0])
            if sum(1 for s in self.stack if s.fnode is nd) >= 1:
                return None
            if self.inline_filter and not self.inline_filter(f.args[0]):
                return None
            return self.call_function(mod, nd, cls, args, kwargs)
        if f.op == "bound_method":
            selft, qual = f.args
            mod, nd, cls = self.repo.function(qual)
            if sum(1 for s in self.stack if s.fnode is nd) >= 1:
                return None
            if self.inline_filter and not self.inline_filter(qual):
                return None
            decos = [dotted_name(d.func if isinstance(d, ast.Call) else d) or "" for d in nd.decorator_list]
            return self.call_function(mod, nd, cls, args, kwargs, self_term=selft)
        return None

    def lam(self, f, nargs=1, argtypes=None):
        """canonical form of a callable passed to an external API"""
        if f.op == "fn" and f.args[0] not in self.prims:
            try:
                nd = self.repo.function(f.args[0])[1]
            except Exception:
                return f
            if sum(1 for s in self.stack if s.fnode is nd) >= 1 or nd.args.vararg or nd.args.kwarg or nd.args.kwonlyargs:
                return f
        elif f.op == "closure":
            nd = self.closures[f.key].node
        else:
            nd = None
        if nd is not None:
            a = nd.args
            n = len(a.posonlyargs + a.args) - 0
            req = n - len(a.defaults)
            n = max(req, min(n, nargs))
            self.lamdepth += 1
            bs = [mk("bound", self.lamdepth, i) for i in range(n)]
            self.loops.append(mk("lambda"))
            try:
                r = self.try_inline(f, bs, {})
            finally:
                self.lamdepth -= 1
                self.loops.pop()
            if r is None:
                return f
            return mk("lam", n, r)
        return f


STR_METHODS = {"split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "startswith", "endswith", "title"}


def _cannot_raise(st):
    """assignments of pure string manipulation"""
    if isinstance(st, ast.Pass):
        return True
    if not (isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets)):
        return False

    def ok(e):
        if isinstance(e, (ast.Name, ast.Constant)):
            return True
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Attribute) and e.func.attr in STR_METHODS and ok(e.func.value) and all(ok(a) for a in e.args) and all(ok(k.value) for k in e.keywords)
        if isinstance(e, ast.Subscript):
            i = e.slice
            if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub):
                i = i.operand
                lim = 1
            else:
                lim = 0
            return isinstance(i, ast.Constant) and i.value == lim and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) \
                and e.value.func.attr in ("split", "rsplit") and ok(e.value)
        return False

    return ok(st.value)


def _total(t, known):
    """string manipulation that never raises, on values known before"""
    if not isinstance(t, T):
        return isinstance(t, tuple) and all(_total(x, known) for x in t)
    if t.key in known or t.op in ("const", "num"):
        return True
    if t.op == "at":
        b, i = t.args
        while isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        return b.op == "call" and b.args[0].op == "attr" and b.args[0].args[1] in ("split", "rsplit") and isinstance(i, T) and is_num(i) and i.args[0] in (0, -1) and _total(b, known)
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in STR_METHODS:
        return all(_total(x, known) for x in (t.args[0].args[0], *t.args[1:]))
    if t.op == "tuple" and all(isinstance(x, T) for x in t.args):
        return all(_total(x, known) for x in t.args)
    return False


def ends_of(t):
    """the alternatives of t, without their conditions"""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "ite":
            stack += x.args[1:]
        else:
            out.append(x)
    return out


def leaves_of(t):
    return leaves(t) if t.op == "ite" and nleaves(t) <= 40 else [(TRUE, t)]


def ite_safe(c, a, b):
    if a is None:
        return b
    if b is None:
        return a
    return norm.merge_values(c, a, b)


def walk_loop(body):
    """statements of a loop body which belong to this loop"""
    stack = list(body)
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.For, ast.While)):
            stack.extend(x.orelse)
        elif not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))


def _load(t):
    import copy

    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _is_generator(node):
    v = getattr(node, "_vf_gen", None)
    if v is None:
        v = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                v = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        node._vf_gen = v
    return v


def annotation_type(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        s = a.value
    else:
        try:
            s = ast.unparse(a)
        except Exception:
            return None
    s = s.strip("'\"")
    for k in ("SubNetwork", "Network", "Components", "Component"):
        if s == k or s.startswith(k + " |") or s.endswith("| " + k):
            return {"Component": "Components"}.get(k, k)
    if s.isidentifier() and s[0].isupper():
        return s
    return None

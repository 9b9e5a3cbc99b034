"""Behaviour-preserving edits: python3 tools/metamorph.py PIDS [n] [seed] [substr] [kind]  -- the checks must stay quiet on every one"""
import ast, builtins, copy, random, sys, signal, multiprocessing as mp
from common import *

COLS = set("""active carrier bus bus0 bus1 p_nom s_nom e_nom p_nom_extendable control type sub_network lifetime build_year efficiency marginal_cost
capital_cost x_pu r_pu x_pu_eff r_pu_eff b_pu g_pu v_nom tap_ratio phase_shift length num_parallel sign committable cyclic_state_of_charge e_cyclic max_hours
x r b g standing_loss investment_period constant sense""".split())
IMPURE = {"append", "add", "pop", "update", "insert", "remove", "drop", "extend", "setdefault", "clear", "set_snapshots", "rename", "sort", "to_csv",
          "mkdir", "unlink", "add_variables", "add_constraints", "write", "next", "popitem", "discard", "set_investment_periods"}


def local_names(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    args = {a.arg for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
    return out - glob - args


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return False
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in IMPURE:
                return False
            if isinstance(x.func, ast.Name) and not hasattr(builtins, x.func.id):
                return False
    return True


def blocks(fn):
    """(owner, field) of every statement list"""
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def eager_subexprs(st):
    """subexpressions of a simple statement evaluated exactly once, before anything else has an effect"""
    out = []

    def rec(e, parent, field, idx):
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp, ast.JoinedStr, ast.Starred, ast.Slice)):
            return
        if isinstance(e, (ast.BinOp, ast.Call, ast.Compare, ast.Subscript, ast.Attribute, ast.UnaryOp)) and isinstance(getattr(e, "ctx", ast.Load()), ast.Load):
            out.append((e, parent, field, idx))
        if isinstance(e, ast.Call):
            # not the function itself: bound methods as temporaries are unusual
            if isinstance(e.func, ast.Attribute):
                rec(e.func.value, e.func, "value", None)
            for i, a in enumerate(e.args):
                rec(a, e, "args", i)
            for k in e.keywords:
                rec(k.value, k, "value", None)
            return
        for f, v in ast.iter_fields(e):
            if isinstance(v, ast.expr):
                rec(v, e, f, None)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.expr):
                        rec(x, e, f, i)

    if isinstance(st, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and st.value is not None and pure(st.value):
        rec(st.value, st, "value", None)
    return out


def setf(parent, field, idx, v):
    if idx is None:
        setattr(parent, field, v)
    else:
        getattr(parent, field)[idx] = v


def N(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def _in_loop(fn, st):
    return any(isinstance(l, (ast.For, ast.While)) and l is not st and any(x is st for x in ast.walk(l)) for l in ast.walk(fn))


def edits(fn, tree):
    """list of (kind, function performing the edit in place)"""
    out = []
    locs = local_names(fn)
    params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    inner = {x for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn for x in ast.walk(n)}
    for v in sorted(locs):
        def ren(v=v):
            if any(isinstance(x, ast.Constant) and isinstance(x.value, str) and "@" + v in x.value for x in ast.walk(fn)):
                raise SkipEdit
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id == v:
                    n.id = v + "_renamed"
        out.append(("rename", ren))

    extra = {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    every = extra | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for owner, f, b in blocks(fn):
        for j, st in enumerate(b):
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            # temporaries
            for e, parent, field, idx in eager_subexprs(st):
                if parent is st and isinstance(st, ast.Assign):
                    continue

                def tmp(b=b, st=st, e=e, parent=parent, field=field, idx=idx):
                    setf(parent, field, idx, N("extracted_value"))
                    b.insert(b.index(st), ast.Assign([N("extracted_value", True)], e))
                out.append(("temp", tmp))
                fv = loads(e) & (locs | set(params) | every)
                if not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)) for x in ast.walk(e)) and len(list(ast.walk(e))) > 6:
                    def helper(e=e, parent=parent, field=field, idx=idx, fv=sorted(fv)):
                        if any(isinstance(x, ast.Constant) and isinstance(x.value, str) and "@" in x.value for x in ast.walk(e)):
                            raise SkipEdit  # the query string names a local
                        h = ast.FunctionDef("_helper_expr", ast.arguments([], [ast.arg(a) for a in fv], None, [], [], None, []), [ast.Return(e)], [])
                        setf(parent, field, idx, ast.Call(N("_helper_expr"), [N(a) for a in fv], []))
                        tree.body.append(h)
                    out.append(("helper", helper))
            # inline single-use temporaries
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and pure(st.value):
                v = st.targets[0].id
                uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == v]
                if len(uses) == 2 and j + 1 < len(b):
                    nx = b[j + 1]
                    cand = [q for q in eager_subexprs_all(nx) if q[0] is uses[0] or q[0] is uses[1]]
                    if cand and not isinstance(nx, (ast.If, ast.For, ast.While, ast.With, ast.FunctionDef)):
                        def inl(b=b, st=st, q=cand[0]):
                            setf(q[1], q[2], q[3], st.value)
                            b.remove(st)
                        out.append(("inline", inl))
            if isinstance(st, ast.If):
                if st.orelse:
                    def inv(st=st):
                        st.test, st.body, st.orelse = ast.UnaryOp(ast.Not(), st.test), st.orelse, st.body
                    out.append(("invert-if", inv))
                # continue -> nesting
                if len(st.body) == 1 and isinstance(st.body[0], ast.Continue) and not st.orelse and isinstance(owner, ast.For) and j + 1 < len(b):
                    def nest(b=b, st=st):
                        k = b.index(st)
                        rest = b[k + 1:]
                        del b[k + 1:]
                        st.test, st.body = ast.UnaryOp(ast.Not(), st.test), rest
                    out.append(("nest", nest))
                # last if of a loop -> continue
                if isinstance(owner, ast.For) and f == "body" and j == len(b) - 1 and not st.orelse:
                    def flat(b=b, st=st):
                        k = b.index(st)
                        body = st.body
                        st.test, st.body = ast.UnaryOp(ast.Not(), st.test), [ast.Continue()]
                        b.extend(body)
                    out.append(("unnest", flat))
                if len(st.body) == 1 and len(st.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (st.body[0], st.orelse[0])) \
                        and st.body[0].targets[0].id == st.orelse[0].targets[0].id:
                    def tern(b=b, st=st):
                        b[b.index(st)] = ast.Assign([st.body[0].targets[0]], ast.IfExp(st.test, st.body[0].value, st.orelse[0].value))
                    out.append(("ternary", tern))
                if not st.orelse and isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And):
                    def split(st=st):
                        vals = st.test.values
                        rest = vals[1] if len(vals) == 2 else ast.BoolOp(ast.And(), vals[1:])
                        st.body = [ast.If(rest, st.body, [])]
                        st.test = vals[0]
                    out.append(("split-and", split))
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp):
                def untern(b=b, st=st):
                    b[b.index(st)] = ast.If(st.value.test, [ast.Assign(copy.deepcopy(st.targets), st.value.body)], [ast.Assign(st.targets, st.value.orelse)])
                out.append(("unternary", untern))
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                def aug(b=b, st=st):
                    b[b.index(st)] = ast.Assign([N(st.target.id, True)], ast.BinOp(N(st.target.id), st.op, st.value))
                if not any(k in ast.unparse(st) for k in ("[", "list")):
                    out.append(("augassign", aug))
            # comprehension -> loop
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, (ast.ListComp, ast.DictComp)) and len(st.value.generators) == 1:
                def loop(b=b, st=st):
                    c = st.value
                    g = c.generators[0]
                    tgt = st.targets[0].id
                    if isinstance(c, ast.ListComp):
                        init = ast.List([], ast.Load())
                        body = ast.Expr(ast.Call(ast.Attribute(N(tgt + "_acc"), "append", ast.Load()), [c.elt], []))
                    else:
                        init = ast.Dict([], [])
                        body = ast.Assign([ast.Subscript(N(tgt + "_acc"), c.key, ast.Store())], c.value)
                    inner = [body]
                    for t in reversed(g.ifs):
                        inner = [ast.If(t, inner, [])]
                    k = b.index(st)
                    b[k:k + 1] = [ast.Assign([N(tgt + "_acc", True)], init), ast.For(g.target, g.iter, inner, []), ast.Assign([N(tgt, True)], N(tgt + "_acc"))]
                out.append(("comp-loop", loop))
            # loop -> comprehension
            if isinstance(st, ast.For) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Expr) and isinstance(st.body[0].value, ast.Call) \
                    and isinstance(st.body[0].value.func, ast.Attribute) and st.body[0].value.func.attr == "append" and isinstance(st.body[0].value.func.value, ast.Name):
                def comp(b=b, st=st):
                    c = st.body[0].value
                    b[b.index(st)] = ast.Expr(ast.Call(ast.Attribute(c.func.value, "extend", ast.Load()), [ast.ListComp(c.args[0], [ast.comprehension(st.target, st.iter, [], 0)])], []))
                out.append(("loop-comp", comp))
            # swap independent assignments
            if j + 1 < len(b):
                nx = b[j + 1]
                if all(isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets) and pure(x.value) for x in (st, nx)) \
                        and not (stores(st) & (loads(nx) | stores(nx))) and not (stores(nx) & loads(st)):
                    def swap(b=b, j=j):
                        b[j], b[j + 1] = b[j + 1], b[j]
                    out.append(("swap", swap))
            # no-op statements
            if j % 3 == 0:
                def noop(b=b, st=st):
                    b.insert(b.index(st), ast.Assign([N("_unused", True)], ast.Constant(None)))
                out.append(("noop", noop))
            # extract a range of statements
            for ln in (1, 2, 3, 5):
                rng = b[j:j + ln]
                if len(rng) < ln or (f == "body" and owner is fn and j == 0):
                    continue
                if any(isinstance(x, (ast.Return, ast.Continue, ast.Break, ast.Yield, ast.FunctionDef, ast.Nonlocal, ast.Global, ast.Import, ast.ImportFrom, ast.Lambda, ast.Delete)) for r in rng for x in ast.walk(r)):
                    continue
                if fn in [x for x in inner] or any(id(s) in {id(q) for q in inner} for s in rng):
                    continue
                if len([x for r in rng for x in ast.walk(r)]) < 12:
                    continue

                def extract(b=b, rng=rng, owner=owner):
                    if any(isinstance(x, ast.Constant) and isinstance(x.value, str) and "@" in x.value for r in rng for x in ast.walk(r)):
                        raise SkipEdit  # the query string names a local
                    names = set(params) | locs | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
                    nested = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
                    names |= nested
                    k = b.index(rng[0])
                    st_ = set().union(*[stores(r) for r in rng])
                    comp_only = set()
                    for r in rng:
                        for x in ast.walk(r):
                            if isinstance(x, ast.comprehension):
                                comp_only |= stores(x.target)
                    lo = set().union(*[loads(r) for r in rng])
                    inloop = owner is not fn
                    ids = {id(x) for r in rng for x in ast.walk(r)}
                    rest = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in ids}
                    if _in_loop(fn, rng[0]):
                        # read again by the next iteration
                        rest |= lo
                        rest |= {x.target.id for r in rng for x in ast.walk(r) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                    outs = sorted((st_ & rest) - comp_only)
                    # only names that are certainly bound before
                    bound_before = set(params) | extra | nested | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (x.lineno, x.col_offset) < (rng[0].lineno, rng[0].col_offset)}
                    ins = sorted(((lo | set(outs)) & names & bound_before) - (comp_only - bound_before))
                    # outputs conditionally assigned must be inputs
                    sure = set()
                    for r in rng:
                        if isinstance(r, ast.Assign):
                            sure |= stores(r)
                    if any(o not in sure and o not in bound_before for o in outs):
                        raise SkipEdit
                    args_ = ast.arguments([], [ast.arg(a) for a in ins], None, [], [], None, [])
                    body = list(rng)
                    if outs:
                        body = body + [ast.Return(ast.Tuple([N(o) for o in outs], ast.Load()) if len(outs) > 1 else N(outs[0]))]
                    call = ast.Call(N("_helper_block"), [N(a) for a in ins], [])
                    new = ast.Expr(call) if not outs else ast.Assign([ast.Tuple([N(o, True) for o in outs], ast.Store()) if len(outs) > 1 else N(outs[0], True)], call)
                    b[k:k + len(rng)] = [new]
                    tree.body.append(ast.FunctionDef("_helper_block", args_, body, []))
                if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for r in rng for x in ast.walk(r)):
                    out.append(("extract", extract))

    # expression level
    parents = {}
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                parents[id(v)] = (n, f, None)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        parents[id(x)] = (n, f, i)
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)) :
            def comm(n=n):
                n.left, n.right = n.right, n.left
            out.append(("commute", comm))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.Constant, ast.List)) and isinstance(getattr(x, "value", None), (str, type(None))) for x in (n.left, n.right)) and not any("Y" in ast.unparse(x) or "K" in ast.unparse(x) or "H" in ast.unparse(x) or "diag" in ast.unparse(x) for x in (n.left, n.right)):
            def comm(n=n):
                n.left, n.right = n.right, n.left
            out.append(("commute*", comm))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and id(n) in parents:
            def subneg(n=n):
                setf(*parents[id(n)], ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right)))
            if not any(w in ast.unparse(n) for w in ("set", "index", "columns", "|", "names", "components", "{")):
                out.append(("sub", subneg))
        if isinstance(n, ast.Attribute) and n.attr == "empty" and isinstance(n.ctx, ast.Load) and ast.unparse(n.value) != "np":
            def emp(n=n):
                setf(*parents[id(n)], ast.Compare(ast.Call(N("len"), [n.value], []), [ast.Eq()], [ast.Constant(0)]))
            if id(n) in parents:
                out.append(("empty-len", emp))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("isna", "isnull", "notna", "notnull") and isinstance(n.func.value, ast.AST):
            def isn(n=n):
                n.func.attr = {"isna": "isnull", "isnull": "isna", "notna": "notnull", "notnull": "notna"}[n.func.attr]
            if not ast.unparse(n.func.value) in ("pd", "np"):
                out.append(("isna", isn))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "query" and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and n.args[0].value == "active" and id(n) in parents:
            def qry(n=n):
                setf(*parents[id(n)], ast.Subscript(n.func.value, ast.Attribute(copy.deepcopy(n.func.value), "active", ast.Load()), ast.Load()))
            out.append(("query", qry))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in COLS and id(n) in parents and not (isinstance(parents[id(n)][0], ast.Call) and parents[id(n)][1] == "func"):
            if isinstance(n.value, (ast.Attribute, ast.Subscript, ast.Call)) and any(w in ast.unparse(n.value) for w in ("static", "n.lines", "n.generators", "n.links", "n.buses", "n.transformers", "storage_units", "n.stores")):
                def col(n=n):
                    setf(*parents[id(n)], ast.Subscript(n.value, ast.Constant(n.attr), ast.Load()))
                out.append(("col-item", col))
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and n.slice.value in COLS and id(n) in parents \
                and any(w in ast.unparse(n.value) for w in ("static", "n.lines", "n.generators", "n.links", "n.buses", "n.transformers", "storage_units", "n.stores")):
            def item(n=n):
                setf(*parents[id(n)], ast.Attribute(n.value, n.slice.value, ast.Load()))
            out.append(("item-col", item))
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("n", "network") and n.attr in STATIC and isinstance(n.ctx, ast.Load) and id(n) in parents:
            def stat(n=n):
                setf(*parents[id(n)], ast.Call(ast.Attribute(n.value, "static", ast.Load()), [ast.Constant(STATIC[n.attr])], []))
            out.append(("static-call", stat))
        if isinstance(n, ast.JoinedStr) and id(n) in parents and not any(isinstance(v, ast.FormattedValue) and v.format_spec for v in n.values) and not isinstance(parents[id(n)][0], ast.JoinedStr):
            def fstr(n=n):
                fmt = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in n.values)
                setf(*parents[id(n)], ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), [v.value for v in n.values if isinstance(v, ast.FormattedValue)], []))
            out.append(("fstring", fstr))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Set, ast.Tuple)) and id(n) in parents:
            elts = n.comparators[0].elts
            if len(elts) >= 2:
                def mem(n=n, elts=elts):
                    pos = isinstance(n.ops[0], ast.In)
                    setf(*parents[id(n)], ast.BoolOp(ast.Or() if pos else ast.And(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq() if pos else ast.NotEq()], [e]) for e in elts]))
                out.append(("member", mem))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            def flip(n=n):
                n.left, n.comparators = n.comparators[0], [n.left]
                n.ops = [FLIP[type(n.ops[0])]()]
            out.append(("flip-compare", flip))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp) and id(n) in parents:
            def dem(n=n):
                o = n.operand
                setf(*parents[id(n)], ast.BoolOp(ast.Or() if isinstance(o.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in o.values]))
            out.append(("demorgan", dem))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.keywords and not any(k.arg is None for k in n.keywords) and len(n.keywords) > 1:
            def kwo(n=n):
                n.keywords.reverse()
            out.append(("kw-order", kwo))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            tgt = TOP.get(n.func.id)
            if tgt is not None and not tgt.args.vararg and not tgt.args.posonlyargs and len(n.args) <= len(tgt.args.args):
                def kwarg(n=n, tgt=tgt):
                    k = len(n.args) - 1
                    n.keywords.insert(0, ast.keyword(tgt.args.args[k].arg, n.args.pop()))
                out.append(("to-kwarg", kwarg))
    return out


def eager_subexprs_all(st):
    out = []

    def rec(e, parent, field, idx):
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)):
            return
        if isinstance(e, ast.Name):
            out.append((e, parent, field, idx))
        for f, v in ast.iter_fields(e):
            if isinstance(v, ast.expr):
                rec(v, e, f, None)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.expr):
                        rec(x, e, f, i)
                    elif isinstance(x, ast.keyword):
                        rec(x.value, x, "value", None)
    if isinstance(st, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and st.value is not None:
        rec(st.value, st, "value", None)
    return out


class SkipEdit(Exception):
    pass


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
STATIC = {"generators": "Generator", "lines": "Line", "links": "Link", "buses": "Bus", "transformers": "Transformer", "stores": "Store",
          "storage_units": "StorageUnit", "loads": "Load", "carriers": "Carrier", "global_constraints": "GlobalConstraint", "shunt_impedances": "ShuntImpedance"}
TOP: dict = {}


def get_fn(tree, fqual):
    body, node = tree.body, None
    for p in fqual.split("."):
        node = [s for s in body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == p][-1]
        body = node.body
    return node


def fresh(modname, fq):
    tree = copy.deepcopy(BASE.repo.modules[modname].tree)
    TOP.clear()
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            TOP[s.name] = s
    fn = get_fn(tree, fq)
    return tree, fn, edits(fn, tree)


def job(a):
    modname, fq, k, pids = a
    desc = "?"
    signal.alarm(150)
    try:
        tree, fn, ed = fresh(modname, fq)
        desc, act = ed[k]
        before = ast.unparse(fn)
        try:
            act()
        except SkipEdit:
            return (modname, fq, desc, k, "skip", "")
        ast.fix_missing_locations(tree)
        after = ast.unparse(fn)
        ctx, src = with_tree(modname, tree)
        r = evaluate(ctx, pids)
    except BaseException as e:
        return (modname, fq, desc, k, "timeout" if isinstance(e, TimeoutError) else "crash", f"{type(e).__name__} {e}"[:200])
    finally:
        signal.alarm(0)
    v = [p for p in pids if r[p][0]]
    e = [p for p in pids if r[p][3]]
    u = [p for p in pids if r[p][1] > BASELINE.get(p, 0)]
    st = "ALARM" if v else "ERROR" if e else "undecided" if u else "quiet"
    msg = r[(v or e or u or [pids[0]])[0]][4]
    import difflib
    d = [x for x in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm="", n=0) if x[:1] in "+-" and x[:3] not in ("+++", "---")]
    return (modname, fq, desc, k, st, ",".join(v or e or u) + " " + str(msg[0])[:80] + " :: " + str(msg[2])[:200] + "\n      " + "\n      ".join(x[:160] for x in d[:6]))


BASELINE: dict = {}


def _alarm(*a):
    raise TimeoutError


signal.signal(signal.SIGALRM, _alarm)

if __name__ == "__main__":
    pids = list(props.PROPERTIES) if sys.argv[1] == "all" else sys.argv[1].split(",")
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    kind = sys.argv[5] if len(sys.argv) > 5 else ""
    fs = reached(pids)
    r0 = evaluate(surface.Ctx(), pids)
    BASELINE.update({p: r0[p][1] for p in pids})
    jobs = []
    for mod, nm in sorted(fs):
        if not mod.startswith("pypsa"):
            continue
        for fq, fn in functions(mod):
            if fq.split(".")[-1] == nm and sub in (mod + "." + fq):
                for k, (desc, _) in enumerate(fresh(mod, fq)[2]):
                    if kind in desc:
                        jobs.append((mod, fq, k, pids, desc))
    jobs = list({(j[0], j[1], j[2]): j for j in jobs}.values())
    tot = len(jobs)
    # even sampling over kinds
    rnd.shuffle(jobs)
    from collections import Counter, defaultdict
    by = defaultdict(list)
    for j in jobs:
        by[j[4]].append(j)
    pick = []
    while len(pick) < min(n, tot):
        for k in list(by):
            if by[k]:
                pick.append(by[k].pop())
    C = Counter()
    K = defaultdict(Counter)
    with mp.Pool(8, maxtasksperchild=6) as pool:
        for r in pool.imap_unordered(job, [j[:4] for j in pick[:n]]):
            C[r[4]] += 1
            K[r[2]][r[4]] += 1
            if r[4] not in ("quiet", "skip"):
                print(f"{r[4]:9} {r[0]}.{r[1]}#{r[3]} [{r[2]}] {r[5]}"[:1500], flush=True)
    for k in sorted(K):
        print(f"  {k:14}", dict(K[k]))
    print(dict(C), "of", tot, "possible")

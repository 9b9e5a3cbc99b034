"""Mutation sampling: python3 tools/mutate.py PIDS [n] [seed] [substr]  -- kill rate of the checks"""
import ast, copy, random, sys, multiprocessing as mp
from common import *


class Site:
    pass


def mutations(fn):
    """list of (description, apply(fn_copy)) by node index"""
    out = []
    nodes = list(ast.walk(fn))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
    msgs = set()
    for n in nodes:
        if isinstance(n, (ast.Raise,)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "warnings")):
            msgs.update(ast.walk(n))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("msg", "message"):
            msgs.update(ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    msgs.update(ast.walk(a.annotation))
            if n.returns:
                msgs.update(ast.walk(n.returns))
            for d in n.decorator_list:
                msgs.update(ast.walk(d))
        if isinstance(n, ast.AnnAssign):
            msgs.update(ast.walk(n.annotation))
    for i, n in enumerate(nodes):
        if n in doc or n in msgs:
            continue
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
            if type(n.op) in sw:
                out.append((f"op {type(n.op).__name__}", i, lambda m, s=sw[type(n.op)]: setattr(m, "op", s())))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
                  ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            if type(n.ops[0]) in sw:
                out.append((f"cmp {type(n.ops[0]).__name__}", i, lambda m, s=sw[type(n.ops[0])]: setattr(m, "ops", [s()])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert, ast.Not)):
            out.append((f"drop {type(n.op).__name__}", i, "unwrap"))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((f"const {n.value}", i, lambda m: setattr(m, "value", not m.value)))
            elif isinstance(n.value, (int, float)) and n.value is not None:
                out.append((f"const {n.value}", i, lambda m: setattr(m, "value", m.value + 1)))
            elif isinstance(n.value, str) and n.value.isidentifier() and len(n.value) > 2:
                sw = {"p_min_pu": "p_max_pu", "p_max_pu": "p_min_pu", "bus0": "bus1", "bus1": "bus0", "generators": "objective", "objective": "generators",
                      "stores": "generators", "p0": "p1", "p1": "p0", "q0": "q1", "q1": "q0", "start_up": "shut_down", "shut_down": "start_up",
                      "Line": "Transformer", "Transformer": "Line", "Generator": "Link", "Link": "Generator", "Store": "StorageUnit", "StorageUnit": "Store",
                      "snapshot": "snapshots", "static": "dynamic", "sum": "mean", "mean": "sum", "lower": "upper", "upper": "lower", "PV": "PQ", "PQ": "PV", "Slack": "PQ"}
                if n.value in sw:
                    out.append((f"str {n.value}", i, lambda m, s=sw[n.value]: setattr(m, "value", s)))
            elif isinstance(n.value, str) and n.value in ("<=", ">="):
                out.append((f"sense {n.value}", i, lambda m: setattr(m, "value", "<=" if m.value == ">=" else ">=")))
        elif isinstance(n, ast.If):
            out.append(("negate if", i, lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
        elif isinstance(n, ast.Attribute) and n.attr in ("p_min_pu", "p_max_pu", "bus0", "bus1", "generators", "objective", "stores", "years", "p0", "p1", "x_pu_eff",
                                                          "r_pu_eff", "x_pu", "r_pu", "min", "max", "any", "all", "sum", "mean", "intersection", "difference", "union", "ffill", "index", "columns", "e_initial"):
            sw = {"p_min_pu": "p_max_pu", "p_max_pu": "p_min_pu", "bus0": "bus1", "bus1": "bus0", "generators": "objective", "objective": "generators",
                  "stores": "generators", "years": "objective", "p0": "p1", "p1": "p0", "x_pu_eff": "r_pu_eff", "r_pu_eff": "x_pu_eff", "x_pu": "r_pu", "r_pu": "x_pu",
                  "min": "max", "max": "min", "any": "all", "all": "any", "sum": "mean", "mean": "sum", "intersection": "union", "union": "intersection",
                  "difference": "intersection", "ffill": "bfill", "index": "columns", "columns": "index", "e_initial": "e_nom"}
            out.append((f"attr {n.attr}", i, lambda m, s=sw[n.attr]: setattr(m, "attr", s)))
        elif isinstance(n, ast.Call) and n.keywords and not isinstance(n.func, ast.Name):
            for j, k in enumerate(n.keywords):
                if k.arg in ("mask", "axis", "columns", "level", "fill_value", "drop", "inds", "errors"):
                    out.append((f"drop kw {k.arg}", i, lambda m, j=j: m.keywords.pop(j)))
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.With)):
            for fld in ("body", "orelse"):
                b = getattr(n, fld, [])
                for j, st in enumerate(b):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func).startswith(("logger", "warnings")):
                        continue
                    if isinstance(st, ast.If) and len(st.body) == 1 and isinstance(st.body[0], (ast.Return, ast.Continue)) and "empty" in ast.unparse(st.test):
                        continue
                    if isinstance(st, (ast.Expr, ast.AugAssign, ast.Continue, ast.Raise, ast.If, ast.Delete)) or (isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Attribute, ast.Subscript))):
                        out.append((f"delete {type(st).__name__} l{st.lineno}", i, lambda m, f=fld, j=j: getattr(m, f).__setitem__(j, ast.Pass())))
    return out


def apply(tree, fqual, idx, act):
    tree = copy.deepcopy(tree)
    parts = fqual.split(".")
    body = tree.body
    node = None
    for p in parts:
        node = [s for s in body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == p][-1]
        body = node.body
    tgt = list(ast.walk(node))[idx]
    if act == "unwrap":
        for par in ast.walk(node):
            for f, v in ast.iter_fields(par):
                if v is tgt:
                    setattr(par, f, tgt.operand)
                elif isinstance(v, list):
                    for j, x in enumerate(v):
                        if x is tgt:
                            v[j] = tgt.operand
    else:
        act(tgt)
    ast.fix_missing_locations(tree)
    return tree, tgt


def job(a):
    import signal
    signal.alarm(100)
    try:
        return job_(a)
    except BaseException as e:
        return (a[0], a[1], mutations(dict(functions(a[0]))[a[1]])[a[2]][0], 0, "timeout", type(e).__name__)
    finally:
        signal.alarm(0)


def _alarm(*a):
    raise TimeoutError


import signal
signal.signal(signal.SIGALRM, _alarm)


def job_(a):
    modname, fq, k, pids = a
    fn = dict(functions(modname))[fq]
    desc, idx, act = mutations(fn)[k]
    try:
        line = getattr(list(ast.walk(fn))[idx], "lineno", 0)
        tree, tgt = apply(BASE.repo.modules[modname].tree, fq, idx, act)
        ctx, src = with_tree(modname, tree)
        r = evaluate(ctx, pids)
    except Exception as e:
        return (modname, fq, desc, line, "crash", str(e)[:200])
    v = [p for p in pids if r[p][0]]
    e = [p for p in pids if r[p][3]]
    u = [p for p in pids if r[p][1]]
    st = "killed" if v else "error" if e else "undecided" if u else "survived"
    msg = r[(v or e or u or [pids[0]])[0]][4]
    return (modname, fq, desc, line, st, ",".join(v or u or e) + " " + str(msg[0])[:80] + " :: " + str(msg[2])[:160])


if __name__ == "__main__":
    pids = list(props.PROPERTIES) if sys.argv[1] == "all" else sys.argv[1].split(",")
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    fs = reached(pids)
    jobs = []
    for mod, nm in sorted(fs):
        if not mod.startswith("pypsa"):
            continue
        for fq, fn in functions(mod):
            if fq.split(".")[-1] == nm and sub in (mod + "." + fq):
                for k in range(len(mutations(fn))):
                    jobs.append((mod, fq, k, pids))
    jobs = list({(j[0], j[1], j[2]): j for j in jobs}.values())
    tot = len(jobs)
    rnd.shuffle(jobs)
    jobs = jobs[:n]
    from collections import Counter
    C = Counter()
    with mp.Pool(8, maxtasksperchild=6) as pool:
        for r in pool.imap_unordered(job, jobs):
            C[r[4]] += 1
            if r[4] != "killed":
                print(f"{r[4]:9} {r[0]}.{r[1]}:{r[3]} [{r[2]}] {r[5]}"[:330], flush=True)
    print(dict(C), "of", tot, "possible")

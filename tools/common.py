"""Shared machinery of the self-tests: run the checks in memory on an edited module."""
import ast, copy, os, sys, io, contextlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vf import repo as vrepo, surface, props, compare, check
from vf.repo import Module, AnalysisError

BASE = surface.Ctx()


def with_tree(modname, tree):
    ctx = surface.Ctx.__new__(surface.Ctx)
    ctx.repo = copy.copy(BASE.repo)
    ctx.repo.modules = dict(BASE.repo.modules)
    m = BASE.repo.modules[modname]
    src = ast.unparse(tree)
    tree = ast.parse(src, m.path)
    ctx.repo.modules[modname] = Module(modname, m.path, tree, src)
    ctx.repo._fn_cache = {}
    ctx.cache, ctx.functions, ctx.notes = {}, set(), set()
    return ctx, src


def evaluate(ctx, pids):
    """-> {pid: (violations, undecided, discharged, first message)}"""
    out = {}
    chk_seen = {}
    for pid in pids:
        P = props.PROPERTIES[pid]
        res = compare.Result()
        for chk in P.checks:
            if id(chk) in chk_seen:
                res.obligations.extend(chk_seen[id(chk)])
                continue
            n0 = len(res.obligations)
            try:
                chk(ctx, res, "quick")
            except AnalysisError as e:
                res.add(str(getattr(chk, "title", "?")), "error", str(e))
            except RecursionError as e:
                res.add(str(getattr(chk, "title", "?")), "undecided", "recursion")
            except Exception as e:
                res.add(str(getattr(chk, "title", "?")), "undecided", f"crash {type(e).__name__} {e}")
            chk_seen[id(chk)] = res.obligations[n0:]
        listed = {k.get("sig") for k in check.known_findings()}
        v = [o for o in res.obligations if o[1] == "violation" and check.sig(o) not in listed]
        u = [o for o in res.obligations if o[1] == "undecided"]
        e = [o for o in res.obligations if o[1] == "error"]
        out[pid] = (len(v), len(u), res.count("discharged"), len(e), (v or e or u or [("", "", "")])[0])
    return out


def functions(modname):
    """(qualified name, node) of every function of a module"""
    m = BASE.repo.modules[modname]
    out = []

    def rec(body, pre):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                out.append((pre + st.name, st))
            elif isinstance(st, ast.ClassDef):
                rec(st.body, pre + st.name + ".")

    rec(m.tree.body, "")
    return out


def reached(pids):
    """functions visited when the checks of pids run on the base tree"""
    ctx = surface.Ctx()
    evaluate(ctx, pids)
    return {f for f in ctx.functions if f[0].startswith("pypsa")}

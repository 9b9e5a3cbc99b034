"""Source model of the analysed tree: modules, functions, classes, imports, data tables."""
from __future__ import annotations

import ast
import csv
import hashlib
import os

REPO = os.environ.get("VF_REPO", "/repo")


class AnalysisError(Exception):
    """the analysis itself could not be carried out (vanished anchor, parse error)"""


def mark_statements(tree):
    """calls whose value is dropped"""
    def mark(e):
        if isinstance(e, ast.Call):
            e._vf_stmt = True
        elif isinstance(e, ast.BoolOp):
            mark(e.values[-1])
        elif isinstance(e, ast.IfExp):
            mark(e.body), mark(e.orelse)
        elif isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            mark(e.elt)
        elif isinstance(e, (ast.List, ast.Tuple)):
            for x in e.elts:
                mark(x)
    for x in ast.walk(tree):
        if isinstance(x, ast.Expr):
            mark(x.value)


class Module:
    def __init__(self, name, path, tree, src):
        mark_statements(tree)
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = path.endswith("__init__.py")
        self.defs = {}  # name -> ast node (FunctionDef / ClassDef)
        self.assigns = {}  # name -> list of value exprs
        self.imports = {}  # name -> dotted target
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self._imp(st)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    for s in h.body:
                        if isinstance(s, (ast.Import, ast.ImportFrom)):
                            continue
            elif isinstance(st, ast.With):
                self._scan(st.body)

    def _imp(self, st):
        for k, v in import_bindings(st, self).items():
            self.imports.setdefault(k, v)


def import_bindings(st, module):
    out = {}
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                out[a.name.split(".")[0]] = a.name.split(".")[0]
    else:
        base = st.module or ""
        if st.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (st.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        for a in st.names:
            out[a.asname or a.name] = base + "." + a.name
    return out


class Repo:
    def __init__(self, root=None, pkg="pypsa", extra=None):
        self.root = root or REPO
        self.modules = {}
        self.consulted = {}
        self._owner = {}
        base = os.path.join(self.root, pkg)
        if not os.path.isdir(base):
            raise AnalysisError(f"{base} does not exist")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f), self.root)
        for path, root in extra or []:
            self._load(path, root)
        self._fn_cache = {}

    def _load(self, p, root):
        with open(p, encoding="utf8") as fh:
            src = fh.read()
        try:
            tree = ast.parse(src, p)
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {p}: {e}")
        rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
            rel = rel[: -len(".__init__")]
        self.modules[rel] = Module(rel, p, tree, src)

    def rel(self, path):
        return os.path.relpath(path, self.root)

    # --- resolution of dotted names
    def resolve(self, dotted, _depth=0):
        """-> ('fn', mod, node) | ('cls', mod, node) | ('mod', mod) | ('val', mod, expr) | ('ext', dotted)"""
        if _depth > 12:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("mod", self.modules[dotted])
        if "." not in dotted:
            return ("ext", dotted)
        head, tail = dotted.rsplit(".", 1)
        if head in self.modules:
            m = self.modules[head]
            return self.in_module(m, tail, _depth + 1) or ("ext", dotted)
        # maybe attribute of a class or re-exported
        r = self.resolve(head, _depth + 1)
        if r[0] == "mod":
            return self.in_module(r[1], tail, _depth + 1) or ("ext", dotted)
        if r[0] == "ext":
            return ("ext", r[1] + "." + tail)
        return ("ext", dotted)

    def in_module(self, m, name, _depth=0):
        if name in m.defs:
            n = m.defs[name]
            return ("cls" if isinstance(n, ast.ClassDef) else "fn", m, n)
        if name in m.assigns:
            return ("val", m, m.assigns[name])
        if name in m.imports:
            return self.resolve(m.imports[name], _depth + 1)
        sub = m.name + "." + name
        if sub in self.modules:
            return ("mod", self.modules[sub])
        return None

    # --- classes
    def class_members(self, mod, node):
        out = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                out.setdefault(st.name, []).append(("def", mod, st))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).append(("val", mod, st.value))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                out.setdefault(st.target.id, []).append(("val", mod, st.value))
        return out

    def overridden(self, node, name):
        """some class below this one has its own definition of the member"""
        k = ("over", node.name, name)
        if k not in self._owner:
            below, more = {node.name}, True
            classes = [c for m in self.modules.values() for c in m.tree.body if isinstance(c, ast.ClassDef)]
            found = False
            while more:
                more = False
                for c in classes:
                    if c.name not in below and any((dotted_name(b) or "").split(".")[-1] in below for b in c.bases):
                        below.add(c.name)
                        more = True
                        found = found or any(isinstance(x, ast.FunctionDef) and x.name == name for x in c.body)
            self._owner[k] = found
        return self._owner[k]

    def class_lookup(self, mod, node, name, _depth=0):
        mem = self.class_members(mod, node)
        if name in mem:
            return mem[name]
        if _depth > 6:
            return None
        for b in node.bases:
            d = dotted_name(b)
            if d is None:
                continue
            r = self.lookup_name(mod, d)
            if r and r[0] == "cls":
                x = self.class_lookup(r[1], r[2], name, _depth + 1)
                if x:
                    return x
        return None

    def lookup_name(self, mod, dotted):
        parts = dotted.split(".")
        r = self.in_module(mod, parts[0])
        for p in parts[1:]:
            if r is None:
                return None
            if r[0] == "mod":
                r = self.in_module(r[1], p)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            else:
                return None
        return r

    def find_class(self, name):
        for m in self.modules.values():
            if name in m.defs and isinstance(m.defs[name], ast.ClassDef):
                return m, m.defs[name]
        return None

    def owner(self, mod, nd):
        """name of the class in whose body the function is defined"""
        k = ("owner", id(nd))
        if k not in self._owner:
            self._owner[k] = (next((c.name for c in ast.walk(mod.tree) if isinstance(c, ast.ClassDef) and nd in c.body), None), nd)
        return self._owner[k][0]

    def class_module(self, cls, mod):
        """module whose text defines the class (an inherited method lives elsewhere)"""
        k = ("class", id(cls))
        if k not in self._owner:
            self._owner[k] = (next((m for m in self.modules.values() if any(c is cls for c in m.tree.body)), mod), cls)
        return self._owner[k][0]

    def function(self, qual):
        """'pypsa.pf.network_pf' or 'pypsa.networks.Network.add' -> (module, node, clsnode|None)"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                m = self.modules[mn]
                rest = parts[i:]
                r = self.in_module(m, rest[0])
                if r is None:
                    break
                if len(rest) == 1 and r[0] == "fn":
                    return r[1], r[2], None
                if len(rest) in (2, 3) and r[0] == "cls":
                    x = self.class_lookup(r[1], r[2], rest[1])
                    if x:
                        if len(rest) == 3:      # accessors of a property
                            want = {"fget": ("property", "cached_property"), "fset": ("setter",)}[rest[2]]
                            x = [y for y in x if y[0] == "def" and any((dotted_name(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] in want
                                                                       for d in y[2].decorator_list)]
                        for kind, mm, node in x[::-1]:
                            if kind == "def" and isinstance(node, ast.FunctionDef):
                                return mm, node, r[2]
                            if kind == "val":
                                d = dotted_name(node)
                                if d:
                                    rr = self.lookup_name(mm, d)
                                    if rr and rr[0] == "fn":
                                        return rr[1], rr[2], r[2]
                break
        raise AnalysisError(f"anchor {qual} not found in the analysed tree")

    def digest(self):
        h = hashlib.sha1()
        for k in sorted(self.modules):
            h.update(k.encode())
            h.update(self.modules[k].src.encode())
        return h.hexdigest()

    # --- data tables
    def csv_rows(self, rel):
        p = os.path.join(self.root, "pypsa", "data", rel)
        if not os.path.exists(p):
            raise AnalysisError(f"data table {p} not found")
        with open(p, encoding="utf8") as fh:
            return list(csv.DictReader(fh))

    def components(self):
        if not hasattr(self, "_comps"):
            self._comps = {r["component"]: r for r in self.csv_rows("components.csv")}
        return self._comps

    def attrs(self, comp):
        if not hasattr(self, "_attrs"):
            self._attrs = {}
        if comp not in self._attrs:
            ln = self.components()[comp]["list_name"]
            self._attrs[comp] = {r["attribute"]: r for r in self.csv_rows(f"component_attrs/{ln}.csv")}
        return self._attrs[comp]


def dotted_name(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted_name(e.value)
        return b + "." + e.attr if b else None
    return None

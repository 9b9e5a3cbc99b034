"""Writes DESIGN.md: tools/design_head.md followed by tables made from the registry, the catalogue and the evidence.   python3 tools/design.py"""
import collections, glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import props as registry
from vf.surface import Surface
from vf.effects import ReadOnly
from vf.alias import Sharing
from vf.bound import Bound
from vf.declared import Declared


def parts(chk):
    if isinstance(chk, (ReadOnly, Sharing)):
        return chk.impl, None, "effects" if isinstance(chk, ReadOnly) else "sharing"
    if isinstance(chk, Bound):
        return chk.impl, chk.target, "bound"
    if isinstance(chk, Declared):
        return f"declared tables ({chk.which}*)", None, "other"
    for c in getattr(chk, "__closure__", None) or ():
        if isinstance(c.cell_contents, Surface):
            return c.cell_contents.impl, c.cell_contents.spec, "reference"
    return getattr(chk, "title", "?"), None, "other"


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = {x["property"]: x["reason"] for x in json.load(open(os.path.join(HERE, "MANIFEST.json")))["not_applicable"]}
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Decision per property", ""]
    for p in props:
        pid = p["id"]
        out.append(f"### {pid} {p['title']}")
        if pid in na:
            out += ["", f"Not applicable: {na[pid]}.", ""]
            continue
        ev = os.path.join(HERE, "evidence", pid + ".json")
        n = json.load(open(ev))["coverage"]["obligations"] if os.path.exists(ev) else None
        by = collections.OrderedDict()
        for c in registry.PROPERTIES[pid].checks:
            impl, spec, how = parts(c)
            by.setdefault((how, spec), [])
            if impl not in by[how, spec]:
                by[how, spec].append(impl)
        refs = collections.OrderedDict()
        for (how, spec), impls in by.items():
            refs.setdefault(how, []).append((spec, impls))
        out.append("")
        for how, xs in refs.items():
            if how == "reference":
                out.append("Entry points lowered and compared with their references: " + "; ".join(
                    f"{', '.join('`' + i.replace('pypsa.', '', 1) + '`' for i in impls)} with `{s.replace('spec.', '', 1)}`" for s, impls in xs) + ".")
            else:
                what = {"effects": "Effects traced to objects of the caller in", "sharing": "Stored values traced to uncopied objects of the source in", "other": "Further rules:", "bound": "Names resolved to the documented function:"}[how]
                out.append(f"{what} " + ", ".join("`" + i.replace("pypsa.", "", 1) + "`" for _, impls in xs for i in impls) + ".")
        out.append(f"Out of reach of tests because {p['why_tests_cant'][0].lower() + p['why_tests_cant'][1:].rstrip('.')}." + (f" Obligations on the current tree: {n}." if n else ""))
        out.append("")
    sd = sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")))
    out += ["## Planted bugs and the checks that catch them", "", "| bug | property | breaks | needs |", "|---|---|---|---|"]
    for f in sd:
        m = json.load(open(f))
        out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} (caught) | {m['what_it_breaks']} | {m['needs']} |")
    out.append("")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


main()

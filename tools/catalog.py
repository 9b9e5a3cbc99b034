"""Generates /verif/properties.jsonl and /verif/MANIFEST.json.   python3 tools/catalog.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import props as registry

P = []
NA = {}


def prop(pid, title, statement, over, text, tests, files, mech, state=None, observe=None, na=None, note=None, technique=None):
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=tests,
             anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["_note"], d["_tech"] = note, technique
    P.append(d)
    if na:
        NA[pid] = na


TECH = "static value-flow analysis: normal forms of the effects of the entry point compared with a reference model"
NOTE = ("Interprocedural value-flow analysis of the current source (nothing is executed, no solver): every effect of the entry point is reduced to a "
        "normal form and compared with the normal form of a reference written from the documented behaviour. Assumes the documented semantics of "
        "pandas/xarray/linopy and of the modelled library calls; constructs the analysis does not model are reported as undecided, not as violations.")

exec(open(os.path.join(HERE, "tools", "catalog_data.py")).read())


def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids)), "duplicate ids"
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if pid in registry.PROPERTIES and pid not in NA:
            checks.append(dict(property=pid, quick_cmd=f"python3 -m vf.check --property {pid} --tier quick",
                               thorough_cmd=f"python3 -m vf.check --property {pid} --tier thorough",
                               technique=p["_tech"] or TECH, level=registry.PROPERTIES[pid].level, level_note=p["_note"] or NOTE))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, "the static check for this property is not built (yet); not claimed")))
    missing = set(registry.PROPERTIES) - set(ids)
    assert not missing, missing
    json.dump(dict(version=1, setup_cmd="python3 -m compileall -q vf spec", checks=checks, not_applicable=na,
                   notes="All checks are static: they parse /repo's current source on every run and never import or execute it."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not claimed")


main()

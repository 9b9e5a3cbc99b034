"""The tables shipped with the package which declare components, their attributes and the standard types."""
from __future__ import annotations

import csv
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFERENCE = os.path.join(HERE, "spec", "declared.json")
IGNORED = {"description", "references", "note"}     # prose


def value(s):
    s = s.strip()
    if s.lower() == "nan":
        return "nan"
    try:
        return float(s)
    except ValueError:
        return s


def tables(root):
    """{table: {row: {column: value}}}; the order of rows and columns and the way a number is written do not matter"""
    out = {}
    data = os.path.join(root, "pypsa", "data")
    for d in ("", "component_attrs", "standard_types"):
        for f in sorted(os.listdir(os.path.join(data, d))):
            if not f.endswith(".csv") or f == "networks.csv":       # the latter is prose
                continue
            t = out.setdefault(os.path.join(d, f), {})
            with open(os.path.join(data, d, f), newline="", encoding="utf-8") as fh:
                rows = list(csv.reader(fh))
            head = rows[0]
            for r in rows[1:]:
                if not any(x.strip() for x in r):
                    continue
                key = r[0] if f != "variables.csv" else f"{r[0]} {r[1]}"
                r = r + [""] * (len(head) - len(r))
                entry = {h: value(x) for h, x in zip(head[1:], r[1:]) if h not in IGNORED}
                if key in t:
                    entry = {"twice": True}
                t[key] = entry
    return out


class Declared:
    title = "declared tables"

    def __init__(self, which):
        self.which = which

    def __call__(self, ctx, res, tier):
        from .repo import REPO
        want = json.load(open(REFERENCE))
        have = tables(REPO)
        for t in sorted(want):
            if not t.startswith(self.which):
                continue
            got = have.get(t, {})
            for row, w in sorted(want[t].items()):
                site = [f"pypsa/data/{t} ({row})"]
                g = got.get(row)
                if g is None:
                    res.add(f"{t}: {row}", "violation", f"{row} is no longer declared", site)
                    continue
                bad = [f"{k} is {g.get(k, '')!r} where {v!r} is documented" for k, v in w.items() if g.get(k, "") != v]
                res.add(f"{t}: {row}", "violation" if bad else "discharged", "; ".join(bad), site)


if __name__ == "__main__":
    from .repo import REPO
    with open(REFERENCE, "w") as fh:
        json.dump(tables(REPO), fh, indent=0, sort_keys=True)

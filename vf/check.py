"""python3 -m vf.check --property ID [--tier quick|thorough]"""
from __future__ import annotations

import argparse
import fnmatch
import hashlib
import json
import os
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)

from .repo import AnalysisError
from . import compare, surface, props

VERIF = surface.VERIF
BUDGET = 650.0


class OutOfTime(BaseException):
    pass


def _alarm(*a):
    raise OutOfTime("time budget of one obligation family used up")


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p, encoding="utf8"):
            ln = ln.strip()
            if not ln.startswith("known:"):
                continue
            # known: property=<id> obligation=<id> sig=<hash> | description
            head, _, desc = ln[6:].partition("|")
            d = {}
            for part in head.strip().split(" "):
                if "=" in part:
                    k, v = part.split("=", 1)
                    d[k] = v
            d["desc"] = desc.strip()
            out.append(d)
    return out


def sig(o):
    return hashlib.sha1((o[0] + "|" + o[2]).encode()).hexdigest()[:12]


def run_property(pid, tier, seed, ctx=None, quiet=False):
    t0 = time.time()
    P = props.PROPERTIES[pid]
    res = compare.Result()
    err = None
    ctx = ctx or surface.Ctx()
    for chk in P.checks:
        n0 = len(res.obligations)
        left = BUDGET - (time.time() - t0)
        if left < 5:
            res.add(f"{getattr(chk, 'title', chk)}", "undecided", "analysis gave up: time budget of the property used up")
            continue
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, min(left, 300 if tier == "quick" else 500), 1.0)
            try:
                chk(ctx, res, tier)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except (Exception, OutOfTime) as e:  # the analysis gave up on this part
            del res.obligations[n0:]
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
            res.add(f"{getattr(chk, 'title', chk)}", "undecided", f"analysis gave up: {type(e).__name__}: {e}"[:300])
    viol = [o for o in res.obligations if o[1] == "violation"]
    und = [o for o in res.obligations if o[1] == "undecided"]
    dis = res.count("discharged")
    known = [k for k in known_findings() if k.get("property") == pid]
    unlisted, listed = [], []
    for o in viol:
        m = [k for k in known if k.get("sig") == sig(o)]
        (listed if m else unlisted).append((o, m))
    for o, m in listed:
        if not quiet:
            print(f"KNOWN-FINDING: property={pid} {m[0]['desc']}")
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P.level,
        "violations": len(unlisted),
        "wall_s": round(wall, 3),
        "coverage": {
            "explanation": P.explanation,
            "rule": P.rule,
            "obligations": len(res.obligations), "discharged": dis, "undecided": len(und), "known_findings": len(listed),
            "functions_analysed": len(ctx.functions),
            "modules_parsed": len(ctx.repo.modules),
            "unmodelled_constructs": len(ctx.notes),
            "source_digest": ctx.repo.digest(),
            "obligation_list": [{"id": o[0][:200], "status": o[1], "site": (o[3][:1] or [""])[0]} for o in res.obligations][:400],
            "undecided_list": [{"id": o[0][:200], "detail": o[2][:300]} for o in und][:40],
        },
        "assumptions": P.assumptions,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for o in und:
        if not quiet:
            print(f"UNDECIDED: {o[0][:160]} :: {o[2][:200]}")
    gave_up = any(o[2].startswith("analysis gave up") for o in und)
    if len(res.obligations) < P.floor and not unlisted and not gave_up:
        print(f"ERROR: only {len(res.obligations)} obligations for {pid}, expected at least {P.floor}")
        return 3, res
    if unlisted:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violation.txt")
        with open(rp, "w") as fh:
            fh.write(f"property {pid}: {P.title}\nreplay: cd {VERIF} && python3 -m vf.check --property {pid} --tier {tier}\n\n")
            for o, _ in unlisted:
                fh.write(f"- {o[0]}\n  sig={sig(o)}\n  {o[2]}\n  at {', '.join(o[3][:4])}\n\n")
        for o, _ in unlisted[:8]:
            print(f"  {o[0][:200]}: {o[2][:600]} [{', '.join(o[3][:3])}]")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1, res
    if not quiet:
        print(f"{pid}: {dis}/{len(res.obligations)} obligations discharged, {len(und)} undecided, {wall:.1f} s")
    return 0, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ids = list(props.PROPERTIES) if a.property == "all" else a.property.split(",")
    rc = 0
    ctx = surface.Ctx()
    for pid in ids:
        ctx.functions, ctx.notes = set(), set()
        try:
            r, _ = run_property(pid, a.tier, seed, ctx if len(ids) > 1 else ctx)
        except AnalysisError as e:
            print(f"ERROR: {pid}: {e}")
            r = 2
        rc = max(rc, r)
    sys.exit(rc)


if __name__ == "__main__":
    main()

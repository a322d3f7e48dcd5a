#!/usr/bin/env python3
"""Decide one property:  check.py C01 [--tier quick|thorough]   (exit 0 holds, 1 violated, 2 tool error)
Replay a reported case:  check.py C01 --replay FILE"""
import argparse
import hashlib
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import models, plan, runner                                            # noqa: E402
from vf.fitsfile import File                                           # noqa: E402

ROOT = os.path.dirname(os.path.abspath(__file__))
CHUNK = 4000


def key(c):
    return hashlib.sha1(json.dumps(runner.strip(c), sort_keys=True).encode()).hexdigest()


def validate(cases, obs):
    """group by domain, validate each group; -> [(index, step)], states, transitions"""
    bad, st, tr = [], 0, 0
    for dom in sorted({c["dom"] for c in cases}):
        ix = [i for i, c in enumerate(cases) if c["dom"] == dom]
        mod, conv = runner.DOMS[dom]
        b, s, t = runner.validate(mod, [cases[i] for i in ix], [obs[i] for i in ix], conv)
        bad += [(ix[i], k) for i, k in b]
        st += s
        tr += t
    return sorted(bad), st, tr


def describe(c):
    d = {k: v for k, v in c.items() if not k.startswith("_") and k != "file"}
    f = c.get("_f")
    if f is not None:
        d["file_bytes"] = len(f)
    return d


def shorten(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    pid, t0 = a.property, time.time()
    p = plan.PLAN[pid]
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    runner.build()

    if a.replay:
        c = json.load(open(a.replay))["case"]
        c["_f"] = File()
        for s in c.get("file", []):
            c["_f"].segs.append(bytes.fromhex(s[1]) if s[0] == "h" else (s[1], s[2]))
        _, obs = runner.execute_sure([c])
        bad, _, _ = validate([c], obs)
        print(json.dumps(obs[0])[:4000])
        print("step", bad[0][1] if bad else None)
        sys.exit(1 if bad else 0)

    thorough = a.tier == "thorough"
    deadline = t0 + (3 * 3600 if thorough else 600)
    states = trans = traces = 0
    seen, samples, perbat, violations, mods = set(), [], {}, [], []
    nontrivial = 0

    def judge(name, cases):
        """run the cases on the real code, validate what it did"""
        nonlocal states, trans, traces, nontrivial
        cases, obs = runner.execute_sure(cases)
        bad, st, tr = validate(cases, obs)
        if bad:                                    # must repeat
            ix = [i for i, _ in bad][:40]
            c2, o2 = runner.execute_sure([cases[i] for i in ix])
            b2, _, _ = validate(c2, o2)
            for j, step in b2:
                violations.append({"battery": name, "case": runner.strip(c2[j]), "step": step,
                                   "observed": shorten(o2[j][min(step, len(o2[j])) - 1] if o2[j] else None)})
        states += st
        trans += tr
        traces += len(cases)
        d = perbat.setdefault(name, {"histories": 0, "steps": 0})
        d["histories"] += len(cases)
        d["steps"] += sum(len(o) for o in obs)
        for c, o in zip(cases, obs):
            k = key(c)
            if k not in seen:
                seen.add(k)
                nontrivial += any(x.get("t") not in ("none", "err", "na") for x in o)
        if len(samples) < 3 and cases:
            samples.append({"battery": name, "case": shorten(describe(cases[0])), "observed": shorten(obs[0], 800)})

    # 1. the specification itself: bounded models, all their states, and their behaviours in the real code
    for module, render, mq, mt in plan.MODELS.get(pid, []):
        cases, st, tr, n = models.behaviours(module, render, thorough, int((mt if thorough else mq) * a.scale), a.seed)
        states += st
        trans += tr
        mods.append({"module": module, "states": st, "transitions": tr, "exhaustive": True, "behaviours": n, "replayed": len(cases)})
        for i in range(0, len(cases), CHUNK):
            judge(module, cases[i:i + CHUNK])
            if len(violations) > 20 or time.time() > deadline:
                break

    # 2. random histories of the real code, validated against it
    rounds = 0
    while not violations:
        for name, fn, nq, nt in p["batteries"]:
            r = random.Random(f"{a.seed}/{pid}/{name}/{rounds}")
            n = max(1, int((nt if thorough else nq) * a.scale))
            todo = n
            while todo > 0 and time.time() < deadline:
                judge(name, list(fn(r, min(todo, CHUNK))))
                todo -= min(todo, CHUNK)
                if len(violations) > 20:
                    break
            if violations:
                break
        rounds += 1
        if violations or not thorough or time.time() > deadline - 600 or rounds >= p.get("rounds", 3):
            break

    wall = time.time() - t0
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
                       "evaluations": sum(d["histories"] for d in perbat.values()), "distinct_nontrivial": nontrivial,
                       "rule": "histories generated from VERIF_SEED by vf/batteries.py; counted when distinct and when the "
                               "code returned something other than end, error or not-applicable",
                       "batteries": perbat, "models": mods, "samples": samples},
          "assumptions": p.get("assumptions", []) + plan.ASSUME,
          "wall_s": round(wall, 1), "violations": len(violations)}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if violations:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        seen_step = set()
        n = 0
        for v in violations:
            path = os.path.join(rdir, f"{pid}-{n}.json")
            with open(path, "w") as f:
                json.dump(v, f)
            n += 1
            print(f"VIOLATION property={pid} replay={path}")
            if v.get("case") is not None:
                print("  battery", v.get("battery"), "step", v.get("step"), "observed", str(v.get("observed"))[:300])
            else:
                print("  ", str({k: v[k] for k in v if k != "case"})[:600])
            if n >= 5:
                break
        print(f"{pid}: {len(violations)} violation(s), {wall:.0f} s")
        sys.exit(1)
    print(f"{pid}: held on {traces} histories / {states} states / {trans} transitions, {wall:.0f} s")
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except runner.ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        sys.exit(2)

#!/usr/bin/env python3
"""aiall.py [unit-prefix...] -- run analysis units once and print every obligation that fails (development aid)."""
import os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import ai, xk, units
pre = sys.argv[1:]
us = [u for u in ai.UNITS if not pre or any(u.name.split("@")[0] == p or u.name == p for p in pre)]
t = time.time(); bad = 0
for u in us:
    try:
        res = ai.analyse([u])
    except xk.Broken as e:
        print("BROKEN", u.name, str(e)[:300]); bad += 1; continue
    obs, _ = res[u.name]
    marks = {o.id for o in obs if o.kind == "REACH"}
    f = [o for o in obs if not o.ok and (set(o.kind.split('+')) & set(u.props) or o.kind == 'MEM' and 'P02' in u.props)]
    for o in f:
        bad += 1
        print("FAIL", u.name, o.kind, o.id, o.fn, xk.rel(o.where), o.msg[:160])
    for m in u.reach:
        if m not in marks: print("UNREACHED", u.name, m); bad += not f
    print(f"# {u.name}: {len(obs)} obligations, {len(f)} fail, {time.time()-t:.0f}s")
sys.exit(bool(bad))

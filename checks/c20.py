#!/usr/bin/env python3
"""C20: chart language-model scoring (rule scorer, partial states) against spec/LM.tla"""
import os, sys, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, lms
from c19 import mc, case, record, lower, TYPES, CFG

def tree(rng, s, bos, depth=0):
    """a random way of building s bottom-up"""
    ch = []; i = 0
    flat = rng.random() < (.15 if depth == 0 else .35)
    while i < len(s):
        k = rng.randint(1, len(s) - i)
        if flat or depth > 5 or (k == 1 and rng.random() < .6) or (k == len(s) and rng.random() < .8): ch.append(s[i]); i += 1
        else: ch.append(tree(rng, s[i:i + k], False, depth + 1)); i += k
    if rng.random() < .08: ch.insert(rng.randint(0, len(ch)), {"b": 0, "c": []})       # an empty fragment
    t = {"b": 0, "bn": rng.randrange(2), "c": ch}
    if depth == 0 and rng.random() < .1: t["reset"] = 1
    if bos:
        # the boundary is introduced here or further down the left edge
        if ch and isinstance(ch[0], dict) and rng.random() < .5:
            ch[0] = tree(rng, words(ch[0]), True, depth + 1); t["bn"] = 1
        else: t["b"] = 1
    return t
def words(t): return [w for x in t["c"] for w in (words(x) if isinstance(x, dict) else [x])]

def strings(rng, c, n):
    F = c["_"]["F"]
    for _ in range(n):
        s = lms.rand_string(rng, F, rng.choice([4, 7, 10, 14])); bos = rng.random() < .4
        if bos and rng.random() < .6: s.append(2)
        for _ in range(rng.randint(2, 4)): c["t"].append(tree(rng, s, bos))
        if rng.random() < .7:
            i = rng.randint(0, len(s)); j = rng.randint(i, len(s))
            plan = [[rng.randrange(2), rng.choice([1, 1, 1, 2, 3, 100])] for _ in range(rng.choice([0, 2, 4, 8]))]
            if j > i: c["ap"].append({"A": s[:i], "X": s[i:j], "B": s[j:], "bos": bos, "plan": plan})
            # the same piece between other neighbours
            if rng.random() < .5 and j > i: c["ap"].append({"A": lms.rand_string(rng, F, 5), "X": s[i:j], "B": lms.rand_string(rng, F, 5), "bos": rng.random() < .3, "plan": plan[::-1]})

def go(ck):
    exe = targets.get("klm")["klm"]
    rng = ck.rng
    mc(ck, "fragments", seed=6); mc(ck, "fragments-sparse", den=1, seed=12, len=4)
    for v in ("noshrink", "noback"): mc(ck, "wrong-" + v, v, den=1, seed=12, len=4)
    if ck.thorough:
        mc(ck, "fragments-many", seed=60, len=5)
        mc(ck, "fragments-order4", seed=12, N=4, len=6)
        mc(ck, "fragments-order5", seed=6, N=5, len=7, den=1)
        mc(ck, "fragments-words3", seed=10, V="{1,2,3}", len=5)
    n = 6000 if ck.thorough else 900
    cases = []
    for i in range(n):
        c = case(ck, rng, i, big=ck.thorough and i % 10 == 0, ragged=i % 6 == 0)
        strings(rng, c, rng.randint(1, 3))
        if c["how"]["type"] == "rest" and rng.random() < .4: lower(ck, rng, c)
        cases.append(c)
    res = vlib.run_harness([exe], cases, case_timeout=30)
    recs = [record(c, o) for c, o in zip(cases, res)]
    for t in TYPES: ck.cov["models_" + t] = sum(1 for r in recs if r.get("type") == t)
    ck.cov["fragments"] = sum(len(r["t"]) for r in recs if "t" in r)
    ck.cov["partial_applications"] = sum(len(c["ap"]) for c in cases)
    ck.sample(recs[0]); ck.sample(recs[-1])
    def corrupt(rng, recs):
        good = [r for r in recs if r.get("k") == "api" and not r["ragged"] and any(len(f["s"]) > 3 for f in r["t"])]
        for r in good[:1]:
            pick = lambda b: next(f for f in b["t"] if len(f["s"]) > 3)
            b = copy.deepcopy(r); pick(b)["p"] -= 1; yield b
            b = copy.deepcopy(r); pick(b)["lf"] = 1 - pick(b)["lf"]; yield b
            b = copy.deepcopy(r); pick(b)["rw"].append(2); yield b
    ck.validate("LMTrace", recs, CFG, corrupt=corrupt)
    ck.assumptions += ["the context of every n-gram is in the file (the loaders require it)", "fragments are compared exactly where back-off weights belong to contexts (as in any normalised model); elsewhere only whole sentences", "values are multiples of 1/8, so that sums are compared exactly"]

vlib.main("C20", go)

#!/usr/bin/env python3
"""C03: inside/outside sums against spec/Forest.tla, spec/InsideOutside.tla"""
import os, sys, itertools, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, forests as fo
from lattices import lattice

CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"

def squares_ok(g, lim):
    h = dict(g, E=[dict(e, p=e["p"] ** 2) for e in g["E"]])
    return fo.sizes_ok(h, lim)

def small():
    out = []
    e = lambda h, t, p: dict(h=h, t=t, e=[-k for k in range(len(t))] or [1], f=[p - 1], p=p)
    for p0, (t1, p1), (t2, p2), x in itertools.product((1, 2), itertools.product(([], [0], [0, 0]), (1, 3)),
            itertools.product(([1], [0, 1], [1, 1], [1, 0, 1], [0]), (1, 2)), (None, e(2, [1, 1], 2), e(1, [0, 0], 2), e(0, [], 3))):
        out.append(dict(n=3, nf=1, E=[e(0, [], p0), e(1, t1, p1), e(2, t2, p2)] + ([x] if x else [])))
    return out

def check(ck):
    exe = targets.get("forest")["forest"]
    ck.model_check("InsideOutsideMC", "CONSTANT Deep = %s\nSPECIFICATION MCSpec\nINVARIANT InsideIsSum OutsideIsContext PosteriorIsSum\nCHECK_DEADLOCK FALSE\n"
                   % ("TRUE" if ck.thorough else "FALSE"), timeout=3000)
    cases = []
    gs = small()
    n = 6000 if ck.thorough else 900
    while len(gs) < n:
        g = fo.rand_forest(ck.rng, n=ck.rng.randint(1, 6), maxd=80, p=ck.rng.choice([2, 4, 9]), dup=.35)
        if squares_ok(g, 40000): gs.append(g)
    for i, g in enumerate(gs):
        sc = 2 if (i % 3 == 0 and squares_ok(g, 1500)) else 1
        cases.append(dict(op="sums", g=g, scale=sc, lw=[ck.rng.randint(-4, 3) for _ in g["E"]]))
        if fo.sizes_ok(g, 1500) and (sc == 1 or squares_ok(g, 1500)):
            cases.append(dict(op="push", g=g, scale=sc))
    def run(cs): return [dict(c, **r) for c, r in zip(cs, vlib.run_harness([exe], cs))]
    recs = run(cases)
    for r in recs[::len(recs) // 2]: ck.sample(r)
    def corrupt(rng, rs):
        s = [r for r in rs if r["op"] == "sums" and "in" in r]
        for k in ("in", "post", "out", "bp", "ex"):
            r = copy.deepcopy(rng.choice([x for x in s if x["in"][-1] > 0])); r[k][-1] += 1; yield r
        r = copy.deepcopy(rng.choice([x for x in recs if x["op"] == "push" and len(x["g"]["E"]) > 2])); r["p"][0] -= 300; yield r
    ins = ("op", "g", "scale", "lw")
    ck.validate("ForestTrace", recs, CFG, confirm=lambda r: run([{k: r[k] for k in ins if k in r}])[0], corrupt=corrupt)
    lats = []
    for _ in range(2000 if ck.thorough else 250):
        t, shape = lattice(ck.rng)
        lats.append(dict(op="pushsrc", text=t, ws=[[ck.rng.randint(1, 5) for _ in range(k)] for k in shape]))
    def corrupt2(rng, rs):
        r = copy.deepcopy(rng.choice([x for x in rs if x["p"][0][0] > 0])); r["p"][0][0] -= 300; yield r
    ck.validate("PLFTrace", run(lats), CFG, confirm=lambda r: run([{k: r[k] for k in ("op", "text", "ws")}])[0], corrupt=corrupt2)
    ck.cov["forests"] = len(gs); ck.cov["exhaustive_small_forests"] = len(small())
    ck.cov["forests_with_node_used_twice"] = sum(any(len(set(e["t"])) < len(e["t"]) for e in g["E"]) for g in gs)
    ck.assumptions = ["edge weights are small positive integers so the sums are integers; the log-domain results are compared after rounding (1e-6 relative)"]

if __name__ == "__main__":
    vlib.main("C03", check)

#!/usr/bin/env python3
"""C04: forest pruning against spec/Forest.tla, spec/Prune.tla"""
import os, sys, itertools, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, forests as fo

CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"

def support(g, mask):
    """close a set of edges under one way of building each of its tails"""
    m, todo = set(mask), list(mask)
    while todo:
        for t in g["E"][todo.pop()]["t"]:
            ins = [i for i, e in enumerate(g["E"]) if e["h"] == t]
            if not any(i in m for i in ins):
                m.add(ins[0]); todo.append(ins[0])
    return sorted(m)

def check(ck):
    exe = targets.get("forest")["forest"]
    ck.model_check("PruneMC", "CONSTANT Deep = %s\nSPECIFICATION MCSpec\nINVARIANT BestKept Closed AboveKept\nCHECK_DEADLOCK FALSE\n"
                   % ("TRUE" if ck.thorough else "FALSE"), timeout=3000)
    rng = ck.rng
    cases = []
    n = 8000 if ck.thorough else 1100
    while len(cases) < n:
        r = rng.random()
        g = fo.rand_forest(rng, n=rng.randint(2, 6), maxd=60, nf=2, fmax=rng.choice([1, 3, 6]), dup=.3, vocab=3, words=1, p=3)
        M = len(g["E"])
        if M > 11: continue
        w = [rng.randint(-2, 3) for _ in range(2)]
        mask = []
        if rng.random() < .3: mask = sorted(rng.sample(range(M), rng.randint(1, min(3, M))))
        if mask and rng.random() < .8: mask = support(g, mask)
        if r < .7:
            which = rng.choice(["d", "b", "b", "both"])
            case = dict(op="prune", g=g, w=w, wdiv=rng.choice([1, 1, 3, 7, 10]), mask=mask, sum=False, safe=bool(mask and support(g, mask) != mask) or rng.random() < .4,
                        dens4=0 if which == "b" else rng.choice([4, 5, 6, 7, 8, 10, 12, 20]),
                        alpha2=0 if which == "d" else rng.choice([1, 2, 3, 5, 7, 9, 13]))
            cases.append(case)
        else:
            kill = sorted(rng.sample(range(M), rng.randint(0, M)))
            sub = rng.random() < .4
            cases.append(dict(op="edges", g=g, mask=kill, sub=sub, safe=rng.random() < .6))
    for _ in range(n // 3):                              # nodes that cannot be built any more, under rules with many variables
        g = fo.rand_forest(rng, n=rng.randint(4, 7), maxd=120, nf=1, dup=.1, words=1, arity=rng.choice([3, 3, 4]))
        if sum(len(e["t"]) > 2 for e in g["E"]) == 0: continue
        dead = rng.sample(range(g["n"] - 1), rng.choice([1, 1, 2]))
        kill = [i for i, e in enumerate(g["E"]) if e["h"] in dead]
        cases.append(dict(op="edges", g=g, mask=kill, sub=False, safe=True))
    # every cut set of one forest with shared and repeated nodes
    g = dict(n=4, nf=1, E=[dict(h=0, t=[], e=[1], f=[0]), dict(h=0, t=[], e=[2], f=[1]), dict(h=1, t=[0, 0], e=[0, -1], f=[0]),
                           dict(h=1, t=[], e=[3], f=[1]), dict(h=2, t=[1], e=[0, 1], f=[0]), dict(h=3, t=[1, 2], e=[-1, 0], f=[0]), dict(h=3, t=[0], e=[0], f=[0])])
    for m in range(1 << 7):
        kill = [i for i in range(7) if m >> i & 1]
        for safe in (False, True): cases.append(dict(op="edges", g=g, mask=kill, sub=False, safe=safe))
        cases.append(dict(op="edges", g=g, mask=kill, sub=True, safe=False))
    for d4 in (4, 5, 6, 7, 8, 12):
        for a2 in (0, 1, 2, 3):
            for w in ([1], [-1], [2], [0]):
                for safe in (False, True):
                    cases.append(dict(op="prune", g=g, w=w, wdiv=1, mask=[], sum=False, safe=safe, dens4=d4, alpha2=a2))
    for n, at in ((1000, 0), (1000, 999), (200000, 199999), (1500000, 1499998)):
        cases.append(dict(op="prunebig", n=n, at=at, alpha2=7, g=dict(n=1, nf=0, E=[])))
    def run(cs): return [dict(c, **r) for c, r in zip(cs, vlib.run_harness([exe], cs))]
    recs = run(cases)
    for r in recs[::len(recs) // 2]: ck.sample(r)
    def corrupt(rng, rs):
        s = [r for r in rs if r["op"] == "prune" and not r["sum"] and r.get("r") and len(r["r"]["E"]) > 3]
        r = copy.deepcopy(rng.choice(s)); r["best"] -= 1; yield r
        r = copy.deepcopy(rng.choice(s)); r["r"]["E"][0]["f"][0] += 1; yield r
        r = copy.deepcopy(rng.choice([x for x in s if not x["mask"]])); r["r"]["E"] = r["r"]["E"][:-1]; yield r
    ins = ("op", "g", "w", "wdiv", "mask", "sum", "safe", "dens4", "alpha2", "sub", "n", "at")
    ck.validate("ForestTrace", recs, CFG, confirm=lambda r: run([{k: r[k] for k in ins if k in r}])[0], corrupt=corrupt)
    pr = [r for r in recs if r["op"] == "prune" and "r" in r]
    ck.cov["prune_cases"] = len(pr)
    ck.cov["prune_cases_that_removed_edges"] = sum(len(r["r"]["E"]) < len(r["g"]["E"]) for r in pr)
    ck.assumptions = ["scores are integers; an edge whose value equals the threshold may be kept or removed"]

if __name__ == "__main__":
    vlib.main("C04", check)

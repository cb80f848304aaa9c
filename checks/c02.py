#!/usr/bin/env python3
"""C02: Viterbi and k-best against spec/Forest.tla, spec/KBest.tla"""
import os, sys, itertools, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, forests as fo

CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"

def small_forests():
    """every forest of the design model's families, with all ties, for replay"""
    out = []
    leaf = lambda w: dict(h=0, t=[], e=[1], f=[w])
    for a, b in itertools.product(range(3), repeat=2):
        for t in ([0], [0, 0]):
            for w in (0, 1):
                for t2 in (None, [0], [0, 0]):
                    E = [leaf(a), leaf(b), dict(h=1, t=t, e=[-k for k in range(len(t))], f=[w])]
                    if t2 is not None: E.append(dict(h=1, t=t2, e=[-k for k in reversed(range(len(t2)))] + [2], f=[1]))
                    out.append(dict(n=2, nf=1, E=E))
    for a, b, c in itertools.product(range(2), repeat=3):
        for t1 in ([0], [0, 0]):
            for t2 in ([1], [0, 1], [1, 1], [1, 0, 1]):
                out.append(dict(n=3, nf=1, E=[leaf(a), dict(leaf(b), e=[2]), dict(h=1, t=t1, e=[-k for k in range(len(t1))], f=[c]),
                                              dict(h=2, t=t2, e=[-k for k in range(len(t2))], f=[0])]))
    return out

def check(ck):
    exe = targets.get("forest")["forest"]
    k = "CONSTANTS MaxW = %d\nDeep = %d\nWOf <- W\nSPECIFICATION MCSpec\nINVARIANT TopPrefix\n%sCHECK_DEADLOCK FALSE\n"
    ck.model_check("KBestMC", k % (2, 0, "PROPERTY Complete\n"), name="KBestMC-0")
    if ck.thorough:
        ck.model_check("KBestMC", k % (1, 2, ""), name="KBestMC-2", timeout=3000)
    cases = []
    for g in small_forests():
        nd = fo.maxderivs(g)
        for kk in {1, 2, 3, nd, nd + 2}:
            cases.append(dict(op="best", g=g, w=[1], k=kk))
    n = 6000 if ck.thorough else 900
    for _ in range(n):
        nf = 3
        mode = ck.rng.random()
        if mode < .5: g = fo.rand_forest(ck.rng, vocab=3)
        elif mode < .8: g = fo.rand_forest(ck.rng, vocab=1, words=1, fmax=1)       # many equal yields and ties
        else: g = fo.rand_forest(ck.rng, n=ck.rng.randint(4, 7), maxd=250, vocab=2, words=1)
        w = [ck.rng.randint(-2, 3) for _ in range(nf)]
        nd = fo.maxderivs(g)
        cases.append(dict(op="best", g=g, w=w, k=ck.rng.choice([1, 2, 3, 5, 10, max(1, nd - 1), nd, nd + 5])))
    def run(cs): return [dict(c, **r) for c, r in zip(cs, vlib.run_harness([exe], cs))]
    recs = run(cases)
    for r in recs[::len(recs) // 2]: ck.sample(r)
    def corrupt(rng, rs):
        good = [r for r in rs if len(r.get("kb", [])) >= 2]
        r = copy.deepcopy(rng.choice(good)); r["kb"] = r["kb"][1:]; yield r
        r = copy.deepcopy(rng.choice(good)); r["kb"][0]["f"][0] += 1; yield r
        r = copy.deepcopy(rng.choice(good)); r["v"]["s"] -= 1; yield r
        r = copy.deepcopy(rng.choice(good)); r["ku"][0]["s"] -= 1; yield r
    keys = {k: None for k in cases[0]}
    ck.validate("ForestTrace", recs, CFG, confirm=lambda r: run([{k: r[k] for k in ("op", "g", "w", "k")}])[0], corrupt=corrupt)
    ck.cov["exhaustive_small_forests"] = len(small_forests())
    ck.cov["derivations_total"] = sum(fo.maxderivs(c["g"]) for c in cases)
    ck.cov["forests_with_node_used_twice"] = sum(any(len(set(e["t"])) < len(e["t"]) for e in c["g"]["E"]) for c in cases)
    ck.assumptions = ["scores are integers, so the code's doubles are exact; which of several tied derivations is returned is not constrained"]

if __name__ == "__main__":
    vlib.main("C02", check)

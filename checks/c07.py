#!/usr/bin/env python3
"""C07: forest storage and transformations against spec/Forest.tla; lattice files against spec/PLF.tla"""
import os, sys, itertools, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, forests as fo
from lattices import lattice

CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"

def subforest(rng, U, frac):
    """a random sub-hypergraph of U with the goal last, nodes renumbered in a random topological order"""
    for _ in range(50):
        E = [e for e in U["E"] if rng.random() < frac]
        nodes = {U["n"] - 1} | {e["h"] for e in E} | {t for e in E for t in e["t"]}
        g = dict(n=U["n"], nf=U["nf"], E=E)
        cnt = fo.nderiv(g)
        if cnt[-1] == 0: continue
        # drop edges that cannot be built (the decoder never has them)
        if rng.random() < .7:
            E = [e for e in E if all(cnt[t] for t in e["t"])]
        nodes = {U["n"] - 1} | {e["h"] for e in E} | {t for e in E for t in e["t"]}
        order = sorted(nodes)
        if rng.random() < .5:            # another topological numbering
            order, left = [], set(nodes) - {U["n"] - 1}
            while left:
                r = [v for v in left if all(t in order for e in E if e["h"] == v for t in e["t"])]
                v = rng.choice(sorted(r)); order.append(v); left.remove(v)
            order.append(U["n"] - 1)
        m = {v: i for i, v in enumerate(order)}
        E = [dict(e, h=m[e["h"]], t=[m[t] for t in e["t"]]) for e in E]
        rng.shuffle(E)
        if not fo.maxderivs(dict(n=len(order), E=E)): continue
        return dict(n=len(order), nf=U["nf"], E=E, hash=[100 + v for v in order])
    return None

def dedup(g):
    seen, E = set(), []
    for e in g["E"]:
        k = (e["h"], tuple(e["t"]), tuple(e["e"]), tuple(e["f"]))
        if k not in seen: seen.add(k); E.append(e)
    g["E"] = E
    return g

def permuted(rng, g):
    p = list(range(g["n"])); rng.shuffle(p)
    return dict(g, E=[dict(e, h=p[e["h"]], t=[p[t] for t in e["t"]]) for e in g["E"]]), p

def eps_forest(rng):
    while True:
        N = rng.randint(2, 6)
        E, eps = [], set()
        for v in range(N):
            kind = rng.random()
            if v < N - 1 and kind < .3:
                eps.add(v); E.append(dict(h=v, t=[], e=[9], f=[rng.randint(-2, 2) if rng.random() < .5 else 0 for _ in range(2)], p=1)); continue
            for _ in range(rng.choice([1, 1, 2])):
                a = rng.choice([0, 0, 1, 2]) if v else 0
                if v == N - 1 and rng.random() < .85: a = rng.choice([1, 2])
                if a == 2 and v < 2: a = 1
                if a > v: a = 0
                t = rng.sample(range(v), a)
                e = [[rng.randint(1, 3)], [0], [0, -1]][a]
                E.append(dict(h=v, t=t, e=e, f=[rng.randint(-2, 2) for _ in range(2)], p=1))
        g = dict(n=N, nf=2, E=E)
        c = fo.nderiv(g)
        if c[-1] == 0 or max(c) > 60: continue
        used, todo = set(), [N - 1]
        while todo:
            v = todo.pop()
            if v in used: continue
            used.add(v)
            for e in E:
                if e["h"] == v: todo += e["t"]
        if used != set(range(N)): continue
        # documented precondition: a node that may be empty has only that derivation
        empt = {}
        for v in range(N):
            ys = set()
            for e in E:
                if e["h"] == v: ys.add(all(empt[t] for t in e["t"]) and all(x == 9 or x <= 0 for x in e["e"]))
            empt[v] = ys == {True}
            if len(ys) > 1 or (empt[v] and sum(e["h"] == v for e in E) > 1): break
        else:
            if empt[N - 1] or not eps: continue
            return g

def check(ck):
    exe = targets.get("forest")["forest"]
    rng = ck.rng
    ck.model_check("PLFMC", "SPECIFICATION Spec\nINVARIANT RoundTrip\nCHECK_DEADLOCK FALSE\n")
    n = 1500 if ck.thorough else 250
    cases = []
    for _ in range(n):                                   # merging by node identity
        U = dedup(fo.rand_forest(rng, n=rng.randint(2, 6), maxd=50, nf=2, fmax=2, dup=.2, vocab=2, words=1, orphan=1))
        if rng.random() < .3 and len(U["E"]) > 1:        # edges that differ in features only
            x = rng.choice(U["E"]); U["E"].append(dict(x, f=[x["f"][0] + 1, x["f"][1]]))
            dedup(U)
        if rng.random() < .5:                            # edges that differ in the source side only
            x = rng.choice(U["E"]); srcs = []
            for _ in range(2):
                src = [0] * len(x["t"])
                for _ in range(rng.randint(1, 2)): src.insert(rng.randint(0, len(src)), rng.randint(1, 3))
                srcs.append(src)
            if srcs[0] != srcs[1]:
                x["s"] = srcs[0]; U["E"].append(dict(x, s=srcs[1]))
        a, b = subforest(rng, U, rng.choice([.5, .7, 1])), subforest(rng, U, rng.choice([.5, .7, 1]))
        if a is None or b is None or fo.maxderivs(U) > 150: continue
        cases.append(dict(op="union", g=a, b=b, plain=False))
    for _ in range(n // 2):                              # disjoint union
        a, b = (fo.rand_forest(rng, n=rng.randint(1, 4), maxd=40, nf=2) for _ in range(2))
        cases.append(dict(op="union", g=a, b=b, plain=True))
    for _ in range(n):                                   # binary form
        def mk():
            g = fo.rand_forest(rng, n=rng.randint(1, 6), maxd=50, nf=3)
            g["c"] = [rng.randint(1, 4) for _ in range(g["n"] - 1)] + [0]
            for e in g["E"]:
                e["sp"] = [rng.randint(-1, 300) for _ in range(4)]
                e["s"] = [0] * len(e["t"])
                for _ in range(rng.randint(0, 2)): e["s"].insert(rng.randint(0, len(e["s"])), rng.randint(1, 4))
            return g
        cases.append(dict(op="io", g=mk(), b=mk(), dirty=rng.random() < .3, rw=[rng.randint(-2, 2) for _ in range(3)]))
    for _ in range(n):                                   # reordering
        g, p = permuted(rng, fo.rand_forest(rng, n=rng.randint(2, 6), maxd=60, nf=1))
        goal = p[-1] if rng.random() < .8 else rng.randrange(g["n"])
        cases.append(dict(op="topo", g=g, goal=goal, mask=sorted(rng.sample(range(len(g["E"])), rng.randint(0, min(2, len(g["E"])))))))
    for _ in range(n):
        cases.append(dict(op="eps", g=eps_forest(rng)))
    def run(cs): return [dict(c, **r) for c, r in zip(cs, vlib.run_harness([exe], cs))]
    def fields(r): return {k: r[k] for k in ("op", "g", "b", "plain", "dirty", "rw", "goal", "mask", "text", "ws") if k in r}
    recs = run(cases)
    for op in ("union", "io", "eps"): ck.sample(next(r for r in recs if r["op"] == op))
    def corrupt(rng, rs):
        for op in ("union", "io", "topo", "eps"):
            r = copy.deepcopy(rng.choice([x for x in rs if x["op"] == op and len(x["r"]["E"]) > 1 and any(any(y) for y in [z["f"] for z in x["r"]["E"]])]))
            k = next(i for i, e in enumerate(r["r"]["E"]) if any(e["f"]))
            r["r"]["E"][k]["f"][0] += 7; yield r
    ck.validate("ForestTrace", recs, CFG, confirm=lambda r: run([fields(r)])[0], corrupt=corrupt)
    cases = []
    for _ in range(n * 2):
        t, shape = lattice(rng)
        cases.append(dict(op="plf", text=t))
    recs = run(cases)
    ck.sample(bytes(cases[0]["text"]).decode())
    def corrupt2(rng, rs):
        r = copy.deepcopy(rng.choice([x for x in rs if x["op"] == "plf"])); r["lat"][0][0]["d"] += 1; yield r
        r = copy.deepcopy(rng.choice([x for x in rs if x["op"] == "plf" and x["back"][0][0]["f"]])); r["back"][0][0]["f"][0][1] += 1000; yield r
    ck.validate("PLFTrace", recs, CFG, confirm=lambda r: run([fields(r)])[0], corrupt=corrupt2)
    ck.assumptions = ["the empty word is removed under the operation's documented precondition: pure concatenation rules, and a node that can be empty is always empty",
                      "numbers in lattice files are multiples of 1/8 (the reader keeps single precision)"]

if __name__ == "__main__":
    vlib.main("C07", check)

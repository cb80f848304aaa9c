#!/usr/bin/env python3
"""C11: histories of sparse and small vectors against spec/SparseVec.tla"""
import os, sys, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"}

def sparse_history(rng, t, n):
    """a random history; the maps are followed only to keep values small and operations legal"""
    U = 1 if t == "i" else 64
    S = [{}, {}, {}]
    pool = rng.choice([list(range(1, 12)), list(range(0, 6)), list(range(1, 25)), list(range(1, 44)), [1, 2, 3, 39, 40, 41, 42, 43]])
    ops = []
    def lim(m): return all(abs(v) <= 25 * U for v in m.values())
    def val():
        if rng.random() < .12: return 0
        return rng.randint(-4, 4) * U if rng.random() < .5 else rng.randint(-3 * U, 3 * U)
    reals = t != "i"
    names = ["set"] * 5 + ["add"] * 5 + ["touch", "brk"] + ["erase"] * 4 + ["clear"] + ["asg"] * 2 + ["copy"] * 2 + ["range"] * 2 + ["pluseq"] * 3 + ["minuseq"] * 2 + \
        ["axpy", "muleq", "plus", "plus", "minus", "times", "swap", "swap", "erasez", "itset", "itscale", "eq", "eq", "dot", "dotv", "nsq", "nnz", "single", "ser", "serb"] + ["fill"] * 3 + ["drain"] * 2
    if reals: names += ["diveq", "over", "l2", "l1", "l2p", "tani"]
    if t == "d": names += ["b64", "b64", "b64f", "b64f", "pluseqf"]
    while len(ops) < n:
        o = rng.choice(names)
        x, y, z = (rng.randint(1, 3) for _ in range(3))
        X, Y, Z = S[x - 1], S[y - 1], S[z - 1]
        if o == "fill":       # grow to around the representation boundary
            m = rng.choice([6, 7, 8, 14, 15, 16])
            for k in rng.sample(pool, min(m, len(pool))):
                if k not in X: ops.append(dict(o="set", x=x, k=k, v=val())); X[k] = ops[-1]["v"]
            continue
        if o == "drain":
            ks = list(X); rng.shuffle(ks)
            for k in ks[:rng.randint(0, len(ks))]: ops.append(dict(o="erase", x=x, k=k)); del X[k]
            continue
        r = dict(o=o, x=x)
        k = rng.choice(pool)
        if o in ("set", "brk"): r.update(k=k, v=val()); X[k] = r["v"]
        elif o == "add":
            v = val()
            if abs(X.get(k, 0) + v) > 25 * U: continue
            r.update(k=k, v=v); X[k] = X.get(k, 0) + v
        elif o == "touch": r.update(k=k); X.setdefault(k, 0)
        elif o == "erase": r.update(k=k); X.pop(k, None)
        elif o == "clear": X.clear()
        elif o in ("asg", "copy", "ser", "serb", "b64", "b64f"):
            if o == "copy" and x == y: continue
            if o in ("ser", "serb", "b64", "b64f") and (0 in Y or (o in ("ser", "serb") and x == y)): continue   # key 0 stands for "no feature"
            r.update(y=y)
            S[x - 1] = dict(Y) if o != "b64f" else {k: v for k, v in Y.items() if v}
        elif o == "range":
            ks = rng.sample(pool, rng.randint(0, min(len(pool), rng.choice([5, 7, 8, 15, 16, 20]))))
            r.update(p=[[k, val()] for k in ks]); S[x - 1] = {k: v for k, v in r["p"]}
        elif o in ("pluseq", "pluseqf", "minuseq", "axpy", "plus", "minus"):
            a, b, c = X, Y, 1
            if o == "pluseqf" and t != "d": continue
            if o in ("minuseq", "minus"): c = -1
            if o in ("plus", "minus"): a, b = Y, Z; r.update(z=z)
            if o == "axpy": c = rng.choice([-2, -1, 0, 2, 3]); r.update(s=c)
            m = dict(a)
            for k, v in b.items(): m[k] = m.get(k, 0) + c * v
            if not lim(m): continue
            r.update(y=y); S[x - 1] = m
        elif o in ("muleq", "times"):
            c = rng.choice([-2, -1, 0, 1, 2, 3]); a = X if o == "muleq" else Y
            m = {k: v * c for k, v in a.items()}
            if not lim(m): continue
            r.update(s=c)
            if o == "times": r.update(y=y)
            S[x - 1] = m
        elif o in ("diveq", "over"):
            c = rng.choice([1, 2, 4, -2]); a = X if o == "diveq" else Y
            if any(v % abs(c) for v in a.values()): continue
            if c < 0: c = abs(c)
            r.update(s=c)
            if o == "over": r.update(y=y)
            S[x - 1] = {k: v // c for k, v in a.items()}
        elif o == "swap": r.update(y=y); S[x - 1], S[y - 1] = Y, X
        elif o == "erasez":
            r.update(y=y)
            e = 0
            if rng.random() < .5: e = rng.choice([0, U, U // 2 or 1, 2 * U]); r.update(v=e)
            S[x - 1] = {k: v for k, v in Y.items() if abs(v) > e}
        elif o == "itset":
            r.update(k=k, v=val())
            if k in X: X[k] = r["v"]
        elif o == "itscale": S[x - 1] = {k: -v for k, v in X.items()}
        elif o in ("eq", "dot"): r.update(y=y)
        elif o == "dotv": r.update(p=[val() for _ in range(rng.randint(0, 30))])
        elif o == "tani":
            r.update(y=y)
            if any(v % U or abs(v) > 8 * U for v in list(X.values()) + list(Y.values())): continue
        ops.append(r)
        # make equal-looking neighbours for comparisons
        if rng.random() < .06:
            a, b = rng.sample([1, 2, 3], 2)
            ops.append(dict(o="asg", x=a, y=b)); S[a - 1] = dict(S[b - 1])
            k1, k2 = rng.choice(pool), rng.choice(pool)
            ops.append(dict(o="touch", x=a, k=k1)); S[a - 1].setdefault(k1, 0)
            ops.append(dict(o="set", x=b, k=k2, v=rng.choice([0, U]))); S[b - 1][k2] = ops[-1]["v"]
            ops.append(dict(o="eq", x=a, y=b)); ops.append(dict(o="eq", x=b, y=a))
    return dict(k="sparse", t=t, ops=ops)

def small_history(rng, t, n):
    S = [[], [], []]
    ops = []
    c = [0]
    def val(): c[0] += 1; return rng.choice([0, 1, 2, c[0]])
    big = rng.random() < .1
    names = ["push"] * 8 + ["pushi", "pushi", "pushb"] + ["pop"] * 5 + ["erase", "erase", "erase2", "clear", "resize", "resizev", "resizev", "compact", "compact0", "put", "putb", "putf", "swap", "swap2",
             "eq", "eq", "hash", "ser", "serb", "mem", "asg", "asg", "asg", "copy", "copy", "new", "newn", "newv", "newr", "near"]
    while len(ops) < n:
        o = rng.choice(names)
        x, y = rng.randint(1, 3), rng.randint(1, 3)
        X, Y = S[x - 1], S[y - 1]
        r = dict(o=o, x=x)
        size = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 17] + ([300] if big else []))
        if o == "push": r.update(v=val()); X.append(r["v"])
        elif o == "pushi":
            if not X: continue
            r.update(i=rng.randrange(len(X))); X.append(X[r["i"]])
        elif o == "pushb":
            if not X: continue
            X.append(X[-1])
        elif o == "pop":
            if not X: continue
            X.pop()
        elif o == "erase":
            if not X: continue
            r.update(i=rng.randrange(len(X))); del X[r["i"]]
        elif o == "erase2":
            i = rng.randint(0, len(X)); j = rng.randint(i, len(X)); r.update(i=i, j=j); del X[i:j]
        elif o == "clear": X.clear()
        elif o == "resize": r.update(n=size); S[x - 1] = (X + [0] * size)[:size]
        elif o == "resizev": v = val(); r.update(n=size, v=v); S[x - 1] = X[:size] + [v] * (size - len(X))
        elif o == "compact": r.update(n=rng.randint(0, len(X))); del X[r["n"]:]
        elif o == "put":
            if not X: continue
            r.update(i=rng.randrange(len(X)), v=val()); X[r["i"]] = r["v"]
        elif o in ("putb", "putf"):
            if not X: continue
            r.update(v=val()); X[-1 if o == "putb" else 0] = r["v"]
        elif o in ("swap", "swap2"): r.update(y=y); S[x - 1], S[y - 1] = Y, X
        elif o in ("eq", "hash"): r.update(y=y)
        elif o in ("ser", "serb", "asg", "copy"):
            if x == y and o != "asg": continue
            r.update(y=y); S[x - 1] = list(Y)
        elif o == "new": S[x - 1] = []
        elif o == "newn": r.update(n=size); S[x - 1] = [0] * size
        elif o == "newv": v = val(); r.update(n=size, v=v); S[x - 1] = [v] * size
        elif o == "newr": r.update(p=[val() for _ in range(size)]); S[x - 1] = list(r["p"])
        elif o == "near":     # nearly equal vectors
            if x == y: continue
            ops.append(dict(o="asg", x=x, y=y)); S[x - 1] = list(Y)
            if Y:
                i = rng.randrange(len(Y)); v = rng.choice([Y[i], Y[i] + 1]); ops.append(dict(o="put", x=x, i=i, v=v)); S[x - 1][i] = v
            ops.append(dict(o="hash", x=x, y=y))
            r = dict(o="eq", x=x, y=y)
        ops.append(r)
    return dict(k="small", t=t, ops=ops)

def corrupt(rng, recs):
    out = []
    good = [r for r in recs if "crash" not in r and len(r["ops"]) > 8]
    for r in rng.sample(good, min(4, len(good))):
        a = copy.deepcopy(r)
        i = rng.randrange(5, len(a["ops"])); s = a["ops"][i]["s"][0]
        s["m"] = s["m"] + ([[77, 1]] if r["k"] == "sparse" else [5])
        out.append(a)
    return out

def check(ck):
    exe = targets.get("sparse")["sparse"]
    rng = ck.rng
    T = ck.thorough
    ck.model_check("SparseVecMC", "SPECIFICATION Spec\nCONSTANT Keys = {1,2,3%s}\nCONSTANT Inl = 2\nCONSTANT Bound = 1\nCONSTRAINT Small\nINVARIANT Refines\nINVARIANT Shape\nCHECK_DEADLOCK FALSE\n" % (",4" if T else ""))
    ck.model_check("SmallVecMC", "SPECIFICATION Spec\nCONSTANT Inl = 2\nCONSTANT Cap = %d\nCONSTANT Vals = {0,1}\nINVARIANT Refines\nINVARIANT Shape\nCHECK_DEADLOCK FALSE\n" % (5 if T else 4))
    cases = []
    for kind in ("sparse", "small"):
        hs = ck.generate("SparseVecGen", "SPECIFICATION Spec\nCONSTANT Depth = %d\nCONSTANT Kind = \"%s\"\nCONSTANT Full = %s\nCHECK_DEADLOCK FALSE\n" % (2 if T else 1, kind, "FALSE" if T else "TRUE"), name="SparseVecGen-" + kind)
        if T: rng.shuffle(hs); hs = hs[:8000]
        for h in hs:
            for t in (["d"] if kind == "sparse" else ["i2"] if not T else [rng.choice(["i1", "i2", "i3"])]):
                ok = not any(o["o"] == "copy" and o["x"] == o["y"] or o["o"] == "ser" and o["x"] == o["y"] for o in h)
                if ok: cases.append(dict(k=kind, t=t, ops=h, **{"from": len(h) - (2 if T else 1)}))
    n = 2000 if T else 350
    for i in range(n):
        cases.append(sparse_history(rng, rng.choice(["d", "d", "f", "i"]), rng.choice([10, 25, 40])))
        cases.append(small_history(rng, rng.choice(["i2", "i2", "i1", "i3", "i8", "u2"]), rng.choice([10, 25, 50])))
    def run(cs):
        return [dict(k=c["k"], t=c["t"], **{"in": c["ops"], "from": c.get("from", 0)}, **r) for c, r in zip(cs, vlib.run_harness([exe], cs, env=ASAN))]
    recs = run(cases)
    ck.cov["histories"] = len(recs); ck.cov["operations"] = sum(len(r["in"]) for r in recs)
    by = {}
    for r in recs:
        for o in r["in"]: by[r["k"] + "." + o["o"]] = by.get(r["k"] + "." + o["o"], 0) + 1
    ck.cov["operations_by_kind"] = by
    ck.sample(dict(k=recs[-1]["k"], t=recs[-1]["t"], ops=recs[-1]["in"][:12]))
    ck.validate("SparseVecTrace", recs, CFG, confirm=lambda r: run([dict(k=r["k"], t=r["t"], ops=r["in"], **{"from": r["from"]})])[0], corrupt=corrupt)

if __name__ == "__main__":
    vlib.main("C11", check)

#!/usr/bin/env python3
"""C08: phrase-based translation against spec/PhraseBased.tla"""
import os, sys, copy, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, scfg
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
LIMIT = 400

def count(L, T, D, cap):
    """number of derivations (only to keep cases small)"""
    n = len(L)
    memo = {}
    def paths(f, p):
        if not f: return {p: 1}
        out = {}
        if p < n:
            for a in L[p]:
                if a["w"] == f[0]:
                    for q, c in paths(f[1:], p + a["d"]).items(): out[q] = out.get(q, 0) + c
        return out
    def go(cov):
        if cov == (1 << n) - 1: return 1
        if cov in memo: return memo[cov]
        gap = next(i for i in range(n) if not cov >> i & 1)
        t = 0
        for i in range(gap, min(n, gap + D + 1)):
            if cov >> i & 1: continue
            for f in T:
                for j, c in paths(f, i).items():
                    m = ((1 << (j - i)) - 1) << i
                    if not cov & m: t += c * go(cov | m)
        memo[cov] = t
        return t
    return go(0)

def entry(rng, f, e, fs): return dict(f=f, e=e, fs=[[k, scfg.v1000(v)] for k, v in fs.items() if v], _fs=fs)

def line(rng, r, style):
    fs = r["_fs"]
    if style: s = " ".join(scfg.fmt(v) for v in fs.values())     # unnamed: PhraseModel_0 ...
    else: s = " ".join("%s=%s" % (k, scfg.fmt(v)) for k, v in fs.items())
    return "%s ||| %s ||| %s\n" % (" ".join(r["f"]), " ".join(r["e"]), s)

def make(rng, big):
    while True:
        words = ["a", "b", "c", "d"][:rng.choice([1, 2, 3, 3, 4])]
        tgt = ["x", "y", "z", "a"]
        D = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 8, 20, 40])
        style = rng.random() < .15
        T = []
        for _ in range(rng.randint(1, 9)):
            f = [rng.choice(words) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            e = [rng.choice(tgt) for _ in range(rng.choice([1, 1, 2, 3]))]
            fs = {"PhraseModel_%d" % k: scfg.val(rng) for k in range(rng.randint(1, 3))} if style else scfg.rand_feats(rng)
            T.append(entry(rng, f, e, fs))
        for w in words:
            if rng.random() < .7: T.append(entry(rng, [w], [rng.choice(tgt)], {"PhraseModel_0": scfg.val(rng)} if style else scfg.rand_feats(rng)))
        rng.shuffle(T)
        if rng.random() < .1: T.append(rng.choice(T))
        pas = rng.random() < .5
        ins, lats = [], []
        for k in range(rng.choice([1, 1, 2, 3, 4])):
            ws = words + ["u", "v"][:rng.choice([0, 0, 1, 2])]
            if rng.random() < .5: t, L = scfg.sentence(rng, ws, rng.randint(1, 7 if big else 6))
            else: t, L = scfg.lattice(rng, ws, rng.randint(1, 6 if big else 5), eps=0, feats=0)
            ins.append(t); lats.append([[{q: a[q] for q in ("w", "d")} for a in arcs] for arcs in L])
        src = [t["f"] for t in T]
        if all(count(L, src + ([[w] for w in {a["w"] for arcs in L for a in arcs} if [w] not in src] if pas else []), D, LIMIT) <= LIMIT for L in lats): break
    cfg = ["formalism=pb", "grammar=pt", "pb_max_distortion=%d" % D]
    if pas: cfg.append("add_pass_through_rules=1")
    files = {"pt": "".join(line(rng, r, style) for r in T), "w": "# weights\nA 0.5\nPassThrough -1\n"}
    if rng.random() < .5: cfg.append("weights=w")
    return dict(files=files, cfg=cfg, want="F", **{"in": ins}), \
        dict(T=[{k: r[k] for k in ("f", "e", "fs")} for r in T], D=D, **{"pass": pas}, lat=lats)

def corrupt(rng, recs):
    out = []
    good = [r for r in recs if "res" in r and any(x["ok"] == 1 and len(x["F"]["E"]) > 4 for x in r["res"])]
    for r in rng.sample(good, min(3, len(good))):
        k = next(i for i, x in enumerate(r["res"]) if x["ok"] == 1 and len(x["F"]["E"]) > 4)
        a = copy.deepcopy(r); e = next(e for e in a["res"][k]["F"]["E"] if not e["t"]); e["e"] = e["e"] + ["q"]; out.append(a)
        b = copy.deepcopy(r); b["res"][k] = dict(b["res"][k], ok=0); out.append(b)
        c = copy.deepcopy(r); v = c["res"][k]["F"]["in"]; q = max(range(len(v)), key=lambda i: len(v[i])); v[q] = v[q] + v[q][:1]; out.append(c)
    return out

def check(ck):
    exe = targets.get("decoder")["decoder"]
    rng = ck.rng
    ck.model_check("PhraseBasedMC", "SPECIFICATION Spec\nCONSTANT Deep = %s\nCONSTANT Overwrite = FALSE\nINVARIANT Exact\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if ck.thorough else "FALSE"))
    n = 15000 if ck.thorough else 700
    pairs = [make(rng, ck.thorough) for i in range(n)]
    def run(ps):
        rs = vlib.run_harness([exe, tempfile.mkdtemp(dir=ck.work)], [c for c, _ in ps])
        return [dict(m, files=c["files"], cfg=c["cfg"], inp=c["in"], **r) for (c, m), r in zip(ps, rs)]
    recs = run(pairs)
    ok = sum(x["ok"] == 1 for r in recs if "res" in r for x in r["res"]); total = sum(len(r["lat"]) for r in recs)
    ck.cov["inputs"] = total; ck.cov["translated"] = ok
    ck.cov["edges_read"] = sum(len(x["F"]["E"]) for r in recs if "res" in r for x in r["res"] if x["ok"] == 1)
    if "crash" not in recs[0]: ck.sample({k: recs[0][k] for k in ("files", "cfg", "inp", "res")})
    def confirm(rec):
        return run([(dict(files=rec["files"], cfg=rec["cfg"], want="F", **{"in": rec["inp"]}), {k: rec[k] for k in ("T", "D", "pass", "lat")})])[0]
    ck.validate("PhraseBasedTrace", recs, CFG, confirm=confirm, corrupt=corrupt)
    if ok * 4 < total and not ck.violations: raise vlib.CheckError("only %d of %d inputs translated" % (ok, total))

if __name__ == "__main__":
    vlib.main("C08", check)

#!/usr/bin/env python3
"""C23: tree-to-string, compound-splitting and finite-state translation against spec/Trans.tla"""
import os, sys, copy, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, scfg
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
LIMIT = 250
W = lambda x: ["w", x, []]
V = lambda x: ["v", x, []]
N = lambda x, ks: ["n", x, ks]
def text(t):
    if t[0] == "w": return t[1]
    if t[0] == "v": return "[%s]" % t[1]
    return "(%s %s)" % (t[1], " ".join(text(x) for x in t[2]))
def flat(t): return sum((flat(x) for x in t[2]), []) if t[0] == "n" else [t]
def tree(rng, labs, words, depth, wide):
    ks = []
    for _ in range(rng.choice([1, 1, 2, 2, 2, 3, 3][:wide])):
        ks.append(tree(rng, labs, words, depth - 1, wide) if depth > 1 and rng.random() < .65 else W(rng.choice(words)))
    return N(rng.choice(labs), ks)
def fragment(rng, t, p):
    """a rule source cut out of the top of t"""
    return N(t[1], [list(x) if x[0] == "w" else (fragment(rng, x, p) if rng.random() < p else V(x[1])) for x in t[2]])
def subtrees(t): return [t] + sum((subtrees(x) for x in t[2]), []) if t[0] == "n" else []
def rebracket(rng, t):
    """the same walk with the children grouped otherwise"""
    t = copy.deepcopy(t)
    c = [(a, i) for a in subtrees(t) for i, x in enumerate(a[2]) if x[0] == "n"]
    if not c: return t
    a, i = rng.choice(c); b = a[2][i]
    if rng.random() < .5 and i + 1 < len(a[2]): b[2].append(a[2].pop(i + 1))
    elif len(b[2]) > 1: a[2].insert(i + 1, b[2].pop())
    return t
def match(R, t):
    if R[0] == "v": return [t] if t[0] == "n" and t[1] == R[1] else None
    if R[0] == "w": return [] if t[0] == "w" and t[1] == R[1] else None
    if t[0] != "n" or t[1] != R[1] or len(t[2]) != len(R[2]): return None
    out = []
    for a, b in zip(R[2], t[2]):
        m = match(a, b)
        if m is None: return None
        out += m
    return out
def count(G, t, memo):
    k = id(t)
    if k not in memo:
        n = 0
        for g in G:
            m = match(g["src"], t)
            if m is not None:
                c = 1
                for x in m: c *= count(G, x, memo)
                n += c
        memo[k] = n
    return memo[k]
def copies(t):
    out = {}
    for s in subtrees(t): p = fragment(None, s, -1) if False else N(s[1], [x if x[0] == "w" else V(x[1]) for x in s[2]]); out[text(p)] = dict(src=p)
    return list(out.values())
def target(rng, src, tgt):
    k = sum(x[0] == "v" for x in flat(src))
    e = ["[%d]" % (i + 1) for i in range(k)]
    if rng.random() < .5: rng.shuffle(e)
    for _ in range(rng.choice([0, 1, 1, 2]) if e else rng.choice([1, 1, 2])): e.insert(rng.randint(0, len(e)), rng.choice(tgt))
    return e
def rule(rng, src, tgt):
    e = target(rng, src, tgt)
    if rng.random() < .15:
        e, i = [], 0
        for x in flat(src):
            if x[0] == "v": i += 1; e.append("[%d]" % i)
            else: e.append(x[1])
    fs = scfg.rand_feats(rng)
    return dict(src=src, e=e, fs=[[k, scfg.v1000(v)] for k, v in fs.items() if v], _fs=fs)
def line(r): return "%s ||| %s ||| %s\n" % (text(r["src"]), " ".join(r["e"]), " ".join("%s=%s" % (k, scfg.fmt(v)) for k, v in r["_fs"].items()) or "A=0")
def plain(rs): return [{k: r[k] for k in ("src", "e", "fs")} for r in rs]

def t2s(rng, big):
    while True:
        labs = ["S", "A", "B", "C"][:rng.choice([1, 2, 3, 4])]; words = ["a", "b", "c", "A"][:rng.choice([1, 2, 3, 4])]
        tgt = ["x", "y", "a"]
        trees = [tree(rng, labs, words, rng.choice([1, 2, 3, 3, 4]), rng.choice([3, 5, 7])) for _ in range(rng.choice([1, 2, 3, 4]))]
        for _ in range(rng.choice([0, 0, 1])): trees.append(rebracket(rng, rng.choice(trees)))
        if rng.random() < .3: trees.append(rng.choice(trees))
        rng.shuffle(trees)
        if max(len(flat(t)) for t in trees) > 9: continue
        def rules(ts, k):
            out = []
            for _ in range(k):
                src = fragment(rng, rng.choice(subtrees(rng.choice(ts))), rng.choice([0, .3, .6, 1]))
                if rng.random() < .25: src = rebracket(rng, src)
                if rng.random() < .1:
                    c = [x for x in flat(src)]; rng.choice(c)[1] = rng.choice(labs)
                if sum(x[0] == "v" for x in flat(src)) > 5: continue
                out.append(rule(rng, src, tgt))
                if rng.random() < .2: out.append(rule(rng, copy.deepcopy(src), tgt))
                if rng.random() < .05: out.append(out[-1])
            return out
        T = rules(trees, rng.choice([0, 1, 3, 6, 10]))
        if rng.random() < .6: T += [rule(rng, p["src"], tgt) for t in trees for p in copies(t) if rng.random() < .8 and sum(x[0] == "v" for x in p["src"][2]) <= 5]
        rng.shuffle(T)
        pas = rng.random() < .5
        cut = rng.randint(0, len(T)); two = rng.random() < .3
        files = {"g": "".join(map(line, T[:cut] if two else T)), "w": "A 0.5\nPassThrough -1\n"}
        if two: files["g2"] = "".join(map(line, T[cut:]))
        cfg = ["formalism=t2s"] + (["grammar=g"] + (["grammar=g2"] if two else []) if T or rng.random() < .7 else [])
        if len(cfg) == 1: T = []; del files["g"]; files.pop("g2", 0)
        if pas: cfg.append("add_pass_through_rules=1")
        if rng.random() < .4: cfg.append("weights=w")
        ins, extra = [], []
        for k, t in enumerate(trees):
            x = text(t); ex = []
            if rng.random() < .15: x = x.replace(" (", "(") if rng.random() < .5 else x.replace(" ", "  ")
            if rng.random() < .3:
                ex = rules([t], rng.choice([1, 2, 4])); files["s%d" % k] = "".join(map(line, ex)); at = 'grammar="s%d"' % k
                if rng.random() < .3:
                    e2 = rules([t], 2); files["t%d" % k] = "".join(map(line, e2)); at += ' grammar1="t%d"' % k; ex = ex + e2
                x = "<seg id=\"%d\" %s> %s </seg>" % (k, at, x)
            ins.append(x); extra.append(ex)
        if all(count(T + ex + (copies(t) if pas else []), t, {}) <= LIMIT for t, ex in zip(trees, extra)): break
    return dict(files=files, cfg=cfg, want="F", **{"in": ins}), dict(kind="t2s", n=len(ins), T=plain(T), extra=[plain(e) for e in extra], trees=trees, **{"pass": pas})

def csplit(rng, big):
    ins, words = [], []
    for _ in range(rng.choice([1, 2, 4])):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11])
        al = rng.choice(["sen", "seno", "abcdesn", "äesn", "日ßen", "e"])
        w = "".join(rng.choice(al) for _ in range(n))
        if rng.random() < .5:
            w = "".join(rng.choice(["tag", "licht", "ab", "öl"]) + rng.choice(["", "es", "s", "en", "n"]) for _ in range(rng.choice([1, 2, 3])))[:12]
        if w in ("<s>",): continue
        ins.append(w); words.append([dict(c=c, b=len(c.encode())) for c in w])
    return dict(files={}, cfg=["formalism=csplit"], want="F", **{"in": ins}), dict(kind="csplit", n=len(ins), words=words)

def fst(rng, big):
    while True:
        words = ["a", "b", "c", "d"][:rng.choice([1, 2, 3, 4])]; tgt = ["x", "y", "a"]
        P = []
        for _ in range(rng.randint(1, 8)):
            fs = scfg.rand_feats(rng)
            P.append(dict(f=[rng.choice(words) for _ in range(rng.choice([1, 1, 2, 2, 3]))], e=[rng.choice(tgt) for _ in range(rng.choice([1, 1, 2]))],
                          fs=[[k, scfg.v1000(v)] for k, v in fs.items() if v], _fs=fs))
        if rng.random() < .2: P.append(rng.choice(P))
        pas = rng.random() < .5
        ws = words + ["u", "v"][:rng.choice([0, 0, 1, 2])]
        S = [[rng.choice(ws) for _ in range(rng.randint(1, 6))] for _ in range(rng.choice([1, 2, 3, 4]))]
        def cnt(s, Q):
            c = [1] + [0] * len(s)
            for i in range(len(s)):
                for f in Q:
                    if s[i:i + len(f)] == f: c[i + len(f)] += c[i]
            return c[-1]
        src = [p["f"] for p in P]
        if all(cnt(s, src + ([[w] for w in set(s) if [w] not in src] if pas else [])) <= LIMIT for s in S): break
    txt = "".join("%s ||| %s ||| %s\n" % (" ".join(p["f"]), " ".join(p["e"]), " ".join("%s=%s" % (k, scfg.fmt(v)) for k, v in p["_fs"].items())) for p in P)
    goal = "S"
    cfg = ["formalism=fst", "grammar=p", "goal=" + goal] + (["add_pass_through_rules=1"] if pas else [])
    return dict(files={"p": txt}, cfg=cfg, want="F", **{"in": [" ".join(s) for s in S]}), \
        dict(kind="fst", n=len(S), P=[{k: p[k] for k in ("f", "e", "fs")} for p in P], sents=S, goal=goal, **{"pass": pas})

def corrupt(rng, recs):
    out = []
    for kind in ("t2s", "csplit", "fst"):
        good = [r for r in recs if r.get("kind") == kind and "res" in r and any(x["ok"] == 1 and len(x["F"]["E"]) > 3 for x in r["res"])]
        if not good: continue
        r = rng.choice(good); k = next(i for i, x in enumerate(r["res"]) if x["ok"] == 1 and len(x["F"]["E"]) > 3)
        a = copy.deepcopy(r); e = rng.choice([e for e in a["res"][k]["F"]["E"] if e["lhs"] != "Goal"]); e["e"] = e["e"] + ["q"]; out.append(a)
        b = copy.deepcopy(r); b["res"][k] = dict(b["res"][k], ok=0); out.append(b)
        c = copy.deepcopy(r); v = c["res"][k]["F"]["in"]; v[-1] = v[-1] + v[-1][:1]; out.append(c)
    return out

def check(ck):
    exe = targets.get("decoder")["decoder"]
    rng = ck.rng
    def mc(key, fut): return 'SPECIFICATION Spec\nCONSTANT Key = "%s"\nCONSTANT Fut = "%s"\nCONSTANT Deep = %s\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n' % (key, fut, "TRUE" if ck.thorough else "FALSE")
    ck.model_check("TransMC", mc("arity", "app"))
    for key, fut in (("flat", "app"), ("arity", "rev")):
        if ck.tlc("TransMC", mc(key, fut).replace("TRUE", "FALSE")).ok: raise vlib.CheckError("the wrong algorithm (%s, %s) was accepted" % (key, fut))
    n = 9000 if ck.thorough else 900
    pairs = [(t2s if i % 6 < 4 else csplit if i % 6 == 4 else fst)(rng, ck.thorough) for i in range(n)]
    def run(ps):
        rs = vlib.run_harness([exe, tempfile.mkdtemp(dir=ck.work)], [c for c, _ in ps])
        return [dict(m, files=c["files"], cfg=c["cfg"], inp=c["in"], **r) for (c, m), r in zip(ps, rs)]
    recs = run(pairs)
    ck.cov["inputs"] = sum(r["n"] for r in recs)
    ck.cov["translated"] = {k: sum(x["ok"] == 1 for r in recs if r["kind"] == k and "res" in r for x in r["res"]) for k in ("t2s", "csplit", "fst")}
    ck.cov["edges_read"] = sum(len(x["F"]["E"]) for r in recs if "res" in r for x in r["res"] if x["ok"] == 1)
    for kind in ("t2s", "csplit", "fst"):
        r = next(r for r in recs if r["kind"] == kind)
        if "crash" not in r: ck.sample({k: r[k] for k in ("files", "cfg", "inp", "res")})
    ins = ("kind", "n", "T", "extra", "trees", "pass", "words", "P", "sents", "goal")
    def confirm(rec):
        return run([(dict(files=rec["files"], cfg=rec["cfg"], want="F", **{"in": rec["inp"]}), {k: rec[k] for k in ins if k in rec})])[0]
    ck.validate("TransTrace", recs, CFG, confirm=confirm, corrupt=corrupt)
    ck.assumptions = ["source trees have no empty constituents, rules have a field of scores; finite-state input is text (not a forest), over the goal symbol S"]

if __name__ == "__main__":
    vlib.main("C23", check)

#!/usr/bin/env python3
"""C19: n-gram queries in every model format against spec/LM.tla"""
import os, sys, copy, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, lms
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
TYPES = ["probing", "rest", "trie", "qtrie", "atrie", "qatrie"]
D = {"seed": 4, "V": "{1,2}", "N": 3, "len": 5, "den": 2}
def mc(ck, name, var="", **k):
    d = dict(D, **k)
    txt = ("CONSTANTS\nN=%d\nV=%s\nMaxLen=%d\nBos=TRUE\nSeed=%d\nDensity=%d\nVariant=\"%s\"\nINIT Init\nNEXT Next\nINVARIANTS Closure Bracketing StateEnough FullFinal\nCHECK_DEADLOCK FALSE\n"
           % (d["N"], d["V"], d["len"], d["seed"], d["den"], var))
    if var:
        r = ck.tlc("LMMC", txt, name=name)
        if r.ok: raise vlib.CheckError("the specification accepts the wrong algorithm " + var)
        ck.cov.setdefault("wrong_algorithms_rejected", []).append(var)
    else: ck.model_check("LMMC", txt, name=name)

def fits(F, N):
    """bits that keep every value apart"""
    m = max([1] + [sum(1 for f in F if len(f["g"]) == n) for n in range(2, N + 1)]) * N      # blanks too
    b = 1
    while 2 ** b < m: b += 1
    bb = 2
    while 2 ** bb - 2 < m: bb += 1
    return b, bb

def how(rng, F, N, closed):
    h = {"type": rng.choice(TYPES), "via": rng.choice(["arpa", "mmap", "after", "after"]), "load": rng.randrange(5), "unk": -800}
    if rng.random() < .3: h["unk"] = -rng.randint(1, 100)
    b, bb = fits(F, N)
    h["qb"] = rng.randint(b, max(b, 8)); h["bb"] = rng.randint(bb, max(bb, 8)); h["ab"] = rng.choice([0, 1, 2, 3, 5, 22, 25])
    h["mult"] = rng.choice([1.5, 1.5, 1.1, 3, 10]) if closed else 10
    if h["type"] in ("trie", "qtrie", "atrie", "qatrie") and rng.random() < .3: h["mem"] = rng.choice([1 << 12, 1 << 14])
    if rng.random() < .2: h["voc"] = 0
    if rng.random() < .2: h["keep"] = 1
    return h

def case(ck, rng, i, big=False, ragged=True):
    closed = rng.random() < .7
    N, F, hasunk = lms.rand_model(rng, closed=closed, big=big, ragged=ragged)
    vocab = lms.names(rng, F)
    h = how(rng, F, N, closed)
    c = {"file": os.path.join(ck.work, "m%d.arpa" % i), "arpa": lms.arpa(rng, N, F, vocab, rng.choice(["<unk>"] * 4 + ["<UNK>"])), "vocab": vocab, "how": h, "q": [], "t": [], "ap": [],
         "_": {"N": N, "F": F}}
    return c

def record(c, o):
    if "crash" in o: return dict(crash=o["crash"], case={k: c[k] for k in c if k != "arpa"}, arpa=c["arpa"])
    h = c["how"]; v = c["vocab"]
    sp = {"<unk>": 0, "<UNK>": 0}
    noenum = 1 if (h["via"] != "arpa" and not h.get("voc", 1) and not h.get("keep")) else 0
    en = [[a, sp[s] if s in sp else v.index(s) if s in v else -1] for a, s in o["enum"]]
    return {"k": "api", "ragged": int(lms.is_ragged(c["_"]["F"])), "N": c["_"]["N"], "F": c["_"]["F"], "unk": h["unk"], "type": h["type"], "how": h, "rest": ("lower" if h.get("lower") else "max") if h["type"] == "rest" else "", "lower": c["_"].get("lower", []), "ord": o["ord"], "ids": o["ids"],
            "bound": o["bound"], "recog": o.get("recog", 1), "noenum": noenum, "enum": en, "q": o["q"], "t": o["t"], "same": o["same"]}

def add_queries(rng, c, n, hi=9):
    F = c["_"]["F"]
    for _ in range(n):
        s = lms.rand_string(rng, F, hi)
        c["q"].append({"bos": rng.random() < .5, "w": s})

def lower(ck, rng, c):
    """rest costs from separate lower-order models over the same words"""
    N, F = c["_"]["N"], c["_"]["F"]
    uni = [f["g"] for f in F if len(f["g"]) == 1]
    L = []; files = []
    for n in range(1, N):
        G = [dict(f) for f in F if len(f["g"]) <= n]
        G = [dict(f, p=-rng.randint(1, 30), b=0 if len(f["g"]) == n else f["b"]) for f in G]
        L.append(G); p = c["file"] + ".low%d" % n
        open(p, "w").write(lms.arpa(rng, n, G, c["vocab"])); files.append(p)
    c["how"]["lower"] = files; c["_"]["lower"] = L

def programs(ck, exes, rng, n, recs):
    """build_binary and query end to end"""
    d = os.path.join(ck.work, "prog"); os.makedirs(d)
    for i in range(n):
        typ = rng.choice(["arpa", "probing", "trie", "trie", "trie"])
        N, F, hasunk = lms.rand_model(rng, closed=typ == "arpa" or rng.random() < .7)     # gaps need room that only -p gives
        vocab = lms.names(rng, F); b, bb = fits(F, N)
        a = os.path.join(d, "m%d.arpa" % i); open(a, "w").write(lms.arpa(rng, N, F, vocab))
        unk = -800; args = []
        f = a
        if typ != "arpa":
            if rng.random() < .3: unk = -rng.randint(1, 100); args += ["-u", str(unk / 8.0)]
            if typ == "trie":
                if rng.random() < .5:
                    args += ["-q", str(max(b, bb, 3))]
                    if rng.random() < .5: args += ["-b", str(bb)]
                if rng.random() < .5: args += ["-a", str(rng.choice([1, 5, 22]))]
                args += ["-S", "1M"]
            else: args += ["-p", "10"]
            if rng.random() < .5: args += ["-w", rng.choice(["mmap", "after"])]
            f = os.path.join(d, "m%d.bin" % i)
            q = subprocess.run([exes["build_binary"]] + args + ([typ] if typ == "trie" or rng.random() < .5 else []) + [a, f], capture_output=True, text=True, timeout=60)
            if q.returncode: recs.append(dict(crash="build_binary failed", args=args, err=q.stderr[-500:], arpa=open(a).read())); continue
        sent = rng.randrange(2); words = rng.randrange(2)
        S = [lms.rand_string(rng, F) for _ in range(rng.randint(1, 5))]
        sep = lambda: rng.choice([" ", " ", "  ", "\t"])
        txt = "".join((sep() if rng.random() < .1 else "") + "".join(vocab[w] + sep() for w in s).rstrip(" \t") + "\n" for s in S)
        q = subprocess.run([exes["lm_query"]] + ([] if sent else ["-n"]) + ([] if words else ["-s"]) + ["-l", rng.choice(["lazy", "populate", "read", "parallel"]), f], input=txt, capture_output=True, text=True, timeout=60)
        out = [x for x in q.stdout.split("\n") if "Total:" in x]
        if q.returncode or len(out) != len(S): recs.append(dict(crash="query failed", args=args, typ=typ, out=q.stdout[-500:], err=q.stderr[-500:], arpa=open(a).read(), txt=txt)); continue
        tot = []
        known = set(g["g"][0] for g in F if len(g["g"]) == 1)
        for s, x in zip(S, out):
            parts = x.split("\t"); last = parts[-1].split()
            t = {"s": s, "total": round(float(last[1]) * 8), "oov": int(last[3]), "w": []}
            for k, p in enumerate(parts[:-1]):
                name, ln, pr = p.rsplit(" ", 2); surf = name.rsplit("=", 1)[0]
                want = vocab[s[k]] if k < len(s) else "</s>"
                idx = -1 if surf != want else (s[k] if k < len(s) else 2)
                if idx not in known: idx = 0 if idx >= 0 else -1
                t["w"].append([idx, int(ln), round(float(pr) * 8)])
            tot.append(t)
        recs.append({"k": "query", "N": N, "F": F, "unk": unk, "lower": [], "rest": "", "sent": sent, "words": words, "tot": tot, "args": args})

def go(ck):
    exes = targets.get("klm", "lm_query", "build_binary")
    rng = ck.rng
    mc(ck, "states"); mc(ck, "states-sparse", den=1, seed=12, len=4)
    for v in ("noshrink", "noback"): mc(ck, "wrong-" + v, v, den=1, seed=12, len=4)
    if ck.thorough:
        mc(ck, "states-many", seed=60, len=5)
        mc(ck, "states-dense", seed=30, len=5, den=3)
        mc(ck, "states-order4", seed=12, N=4, len=6)
        mc(ck, "states-words3", seed=10, V="{1,2,3}", len=5)
    n = 8000 if ck.thorough else 1000
    cases = []
    for i in range(n):
        c = case(ck, rng, i, big=ck.thorough and i % 10 == 0)
        add_queries(rng, c, rng.randint(2, 6), hi=9)
        if c["how"]["type"] == "rest" and rng.random() < .3: lower(ck, rng, c)
        cases.append(c)
    res = vlib.run_harness([exes["klm"]], cases, case_timeout=30)
    recs = [record(c, o) for c, o in zip(cases, res)]
    programs(ck, exes, rng, 600 if ck.thorough else 60, recs)
    for t in TYPES: ck.cov["models_" + t] = sum(1 for r in recs if r.get("type") == t)
    ck.cov["word_queries"] = sum(len(q["r"]) for r in recs if "q" in r for q in r["q"])
    ck.cov["with_gaps"] = sum(1 for r in recs if "F" in r and any(len(f["g"]) > 2 and f["g"][1:] not in [x["g"] for x in r["F"]] for f in r["F"]))
    ck.sample(recs[0]); ck.sample(recs[-1])
    def corrupt(rng, recs):
        good = [r for r in recs if r.get("k") == "api" and any(len(q["r"]) > 2 for q in r["q"])]
        for r in good[:1]:
            b = copy.deepcopy(r); e = next(q for q in b["q"] if len(q["r"]) > 2)["r"][2]; e["p"][0] -= 1; yield b
            b = copy.deepcopy(r); e = next(q for q in b["q"] if len(q["r"]) > 2)["r"][2]; e["n"][1] += 1; yield b
            b = copy.deepcopy(r); b["ids"][1] = b["ids"][2]; yield b
    ck.validate("LMTrace", recs, CFG, corrupt=corrupt)
    ck.assumptions += ["the context of every n-gram is in the file (the loaders require it)", "probabilities and back-offs are multiples of 1/8, so that sums are compared exactly; quantised models get enough bins for all their values"]

if __name__ == "__main__": vlib.main("C19", go)

#!/usr/bin/env python3
"""C21: the language model estimator against spec/LMEst.tla"""
import os, sys, copy, json, subprocess, math, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets
from concurrent.futures import ThreadPoolExecutor
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
ONE = 10 ** 7

def corpus(rng, big):
    V = rng.choice([1, 2, 2, 3, 3, 4, 6, 9]); ns = rng.choice([1, 2, 4, 7, 10, 14] + ([25, 40] if big else []))
    S = []
    for _ in range(ns):
        if S and rng.random() < .3:
            s = list(rng.choice(S))
            if s and rng.random() < .5: s[rng.randrange(len(s))] = 3 + rng.randrange(V)
        else: s = [3 + min(rng.randrange(V), rng.randrange(V)) if rng.random() < .5 else 3 + rng.randrange(V) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 9]))]
        S.append(s)
    return S

WORDS = ["a", "b", "c", "word", "x" * 30, "ünï", "the", "of", "<a>", "\\end\\", "</a", "0.5", "UNK", "ngram", "1-grams:", "A", "-", "<unk", "\x01", "\x7f", "\xa0", "q"]
def text(rng, S, names, special):
    out = []
    for s in S:
        w = [names[x] for x in s]
        if special:
            for _ in range(rng.randrange(3)): w.insert(rng.randint(0, len(w)), rng.choice(["<s>", "</s>", "<unk>"]))
        sep = lambda: rng.choice([" "] * 8 + ["  ", "\t", "\r", " \t "])
        line = (sep() if rng.random() < .1 else "") + "".join(x + sep() for x in w)
        if rng.random() < .7: line = line.rstrip(" \t\r")
        out.append(line)
    t = "\n".join(out)
    return t + ("\n" if not t.endswith("\n") and out[-1] and rng.random() < .8 or not out[-1] else "")

def memory(rng, N, k):
    """k: how many times it has been refused"""
    size = 4 * N + 8
    bc = rng.choice([1, 1, 2, 2, 3])
    mb = max(size, rng.choice([size, size, 2 * size, 40, 64]))
    sb = max(mb, rng.choice([60, 100, 150, 200, 300])) * (k + 1) * (bc if k else 1)
    S = max(rng.choice([4, 4, 5, 6, 10, 40]) * sb, mb * N * bc * (1 + k), 200 * N * k)
    if rng.random() < .15: return ["-S", "1M", "--sort_block", "1K", "--minimum_block", "64b", "--block_count", "2"]
    return ["-S", "%db" % S, "--sort_block", "%db" % sb, "--minimum_block", "%db" % mb, "--block_count", "%d" % bc]

def read_arpa(path, ids):
    counts = []; e = []; head = {}
    with open(path, "rb") as f: lines = f.read().decode("utf-8", "surrogateescape").split("\n")
    k = 0; i = 0; mode = "head"
    if lines[-1] == "": lines.pop()
    while i < len(lines):
        x = lines[i]; i += 1
        if mode == "head":
            if x.startswith("# "): a, _, b = x[2:].partition(": "); head[a] = b
            elif x == "\\data\\": mode = "counts"
            else: raise ValueError("header line " + x)
        elif mode == "counts":
            if x == "": mode = "grams"
            else:
                a, b = x.split("="); 
                if a != "ngram %d" % (len(counts) + 1): raise ValueError(x)
                counts.append(int(b))
        else:
            if x == "": continue
            if x == "\\end\\": 
                if i != len(lines): raise ValueError("text after the end")
                break
            if x == "\\%d-grams:" % (k + 1) and k < len(counts): k += 1; e.append([]); continue
            p = x.split("\t")
            if len(p) != (3 if k < len(counts) else 2): raise ValueError(x)
            g = [ids.get(w, -1) for w in p[1].split(" ")]
            if len(g) != k: raise ValueError(x)
            lp = float(p[0]); lb = float(p[2]) if len(p) > 2 else 0.0
            lin = lambda v: -10 ** 9 if v != v else 10 ** 9 if v > 2 else round(10 ** v * ONE) if v > -50 else 0
            lg = lambda v: 10 ** 9 if v != v else round(min(1000, max(v, -1000)) * 100000)
            e[-1].append([g, lin(lp), lin(lb), lg(lp), lg(lb)])
    else: raise ValueError("no end")
    return counts, e, head

def run(exe, d, rng, N, txt, args, ids, names):
    a = os.path.join(d, "o.arpa"); t = os.path.join(d, "t.txt"); v = os.path.join(d, "v")
    with open(t, "wb") as f: f.write(txt.encode("utf-8", "surrogateescape"))
    for k in range(6):
        for x in (a, v):
            if os.path.exists(x): os.unlink(x)
        mem = memory(rng, N, k); how = rng.randrange(3); vocab = rng.random() < .3; verbose = rng.random() < .3
        cmd = [exe, "-o", str(N), "-T", os.path.join(d, "tmp"), "--vocab_estimate", str(rng.choice([1, 3, 10]))] + mem + args
        if vocab: cmd += ["--vocab_file", v]
        if verbose: cmd += ["--verbose_header"]
        if how: cmd += ["--text", t]
        if how == 2: cmd += ["--arpa", a]
        env = dict(os.environ, LC_ALL="C")
        try:
            with open(t if not how else os.devnull, "rb") as i, open(a if how < 2 else os.devnull, "wb") as o:
                q = subprocess.run(cmd, stdin=i, stdout=o, stderr=subprocess.PIPE, timeout=60, env=env)
        except subprocess.TimeoutExpired: return dict(end="timeout", cmd=cmd)
        err = q.stderr.decode("utf-8", "replace")
        if q.returncode == 0:
            try: counts, e, head = read_arpa(a, ids)
            except (ValueError, IndexError, OSError) as x: return dict(end="unreadable", why=str(x), cmd=cmd)
            r = dict(end="ok", counts=counts, e=e, tokens=-1, vocab=[-1], cmd=cmd)
            if verbose: r["tokens"] = int(head.get("Token count", "-2"))
            if vocab:
                w = open(v, "rb").read().decode("utf-8", "surrogateescape").split("\0")
                r["vocab"] = [ids.get(x, -1) for x in w[:-1]] if w[-1] == "" else [-3]
            return r
        if "Chain configured with" in err or "Not enough memory" in err or "Vocab hash size estimate" in err or "Sort block size" in err: continue
        if "BadDiscount" in err or "discount out of range" in err or "Could not calculate Kneser-Ney" in err: return dict(end="discount", cmd=cmd)
        if "is not allowed in the corpus" in err: return dict(end="special", cmd=cmd)
        return dict(end="failed %d" % q.returncode, err=err[-600:], cmd=cmd)
    return dict(end="memory", cmd=cmd)

def case(exe, ck, seed, i, big):
    import random
    rng = random.Random(seed); d = os.path.join(ck.work, "lm%d" % i); os.makedirs(d, exist_ok=True)
    N = rng.choice([1, 2, 2, 3, 3, 3, 4, 5]); S = corpus(rng, big)
    names = ["<unk>", "<s>", "</s>"] + rng.sample(WORDS, 10); ids = {w: k for k, w in enumerate(names)}
    prune = [0] * N; args = []
    if rng.random() < .45:
        p = sorted(rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(rng.randint(1, N))); p[0] = 0
        args += ["--prune"] + [str(x) for x in p]; prune = p + [p[-1]] * (N - len(p))
    fb = []
    if rng.random() < .85:
        k = rng.randint(0, 3); f = [(0.5, 1, 1.5), (0.5, 1, 1.5)][0] if k == 0 else [rng.choice([0, .25, .5, 1]) if j == 0 else rng.choice([0, .5, 1.25, j + 1]) for j in range(k)]
        if k and f[0] > 1: f[0] = 1
        args += ["--discount_fallback"] + ([str(x) for x in f] if k else [])
        f = list(f); f = [f[min(j, len(f) - 1)] for j in range(3)]; fb = [round(x * ONE) for x in f]
    interp = rng.random() < .8; pad = 0
    if not interp: args += ["--interpolate_unigrams", "0"]
    elif rng.random() < .25: pad = rng.choice([1, 3, 8, 20, 40]); args += ["--vocab_pad", str(pad)]
    special = rng.random() < .1
    if rng.random() < (.8 if special else .1): args += ["--skip_symbols"]
    txt = text(rng, S, names, special)
    r = run(exe, d, rng, N, txt, args, ids, names)
    # what the text says: a final line without characters is no line
    has = special and any(w in txt.replace("\t", " ").replace("\r", " ").replace("\n", " ").split(" ") for w in ("<s>", "</s>", "<unk>"))
    r.update(N=N, corpus=S, prune=prune, fb=fb, interp=interp, pad=pad, special=int(has and "--skip_symbols" not in args), txt=txt)
    if r["end"] == "ok" and interp and 0 not in fb and rng.random() < .3:
        q = run(exe, d, rng, N, txt, args + ["--collapse_values"], ids, names)
        if q["end"] == "ok":
            r["q"] = q["e"]
            if q["counts"] != r["counts"]: r["end"] = "collapsed model has other counts"
            known = sorted({x for s in S for x in s})
            r["sents"] = S[:6] + [[rng.choice([0] + known) for _ in range(rng.randint(0, 7))] for _ in range(5)]
        elif q["end"] != "memory": r["end"] = "collapsed: " + q["end"]
    shutil.rmtree(d, ignore_errors=True)
    return r

def mc(ck, name, N, W, seeds, mw=2, pr=1, ms=2, v="", want=True):
    cfg = 'INIT Init\nNEXT Next\nCONSTANTS\nN=%d\nWords=%d\nMaxS=%d\nMaxW=%d\nPrune=%d\nSeeds=%d\nVariant="%s"\nINVARIANT Sums\nINVARIANT IsClosed\nINVARIANT Pass\nCHECK_DEADLOCK FALSE\n' % (N, W, ms, mw, pr, seeds, v)
    if want: ck.model_check("LMEstMC", cfg, name=name)
    elif ck.tlc("LMEstMC", cfg).ok: raise vlib.CheckError("LMEstMC accepts the wrong design " + v)

def go(ck):
    exe = targets.get("lmplz")["lmplz"]; rng = ck.rng
    mc(ck, "bigrams", 2, 2, 0, mw=2); mc(ck, "trigrams-random", 3, 3, 12, pr=2)
    for v in ("adjprune", "prunedcounts", "nonormaliser"): mc(ck, "", 3, 2, 8, pr=2, v=v, want=False)
    mc(ck, "", 3, 1, 0, mw=3, ms=3, v="lateprune", want=False)
    if ck.thorough:
        mc(ck, "bigrams-longer", 2, 2, 0, mw=3); mc(ck, "trigrams-all", 3, 2, 0, mw=2, pr=2); mc(ck, "one-word", 3, 1, 0, mw=4, ms=3, pr=3)
        mc(ck, "four-grams-random", 4, 3, 60, pr=2); mc(ck, "trigrams-random-many", 3, 3, 150, pr=3)
    n = 6000 if ck.thorough else 500
    seeds = [rng.randrange(1 << 40) for _ in range(n)]
    with ThreadPoolExecutor(10) as ex: recs = list(ex.map(lambda x: case(exe, ck, x[1], x[0], ck.thorough and x[0] % 8 == 0), enumerate(seeds)))
    for r in recs:
        if r["end"] not in ("ok", "memory", "special", "discount"): r["crash"] = r["end"]
    for k in ("ok", "memory", "special", "discount"): ck.cov["ended_" + k] = sum(1 for r in recs if r["end"] == k)
    ck.cov["pruned"] = sum(1 for r in recs if r["end"] == "ok" and any(r["prune"])); ck.cov["collapsed"] = sum(1 for r in recs if "q" in r)
    ck.cov["ngrams"] = sum(sum(r["counts"]) for r in recs if r["end"] == "ok")
    for N in range(1, 6): ck.cov["models_order_%d" % N] = sum(1 for r in recs if r["end"] == "ok" and r["N"] == N)
    ck.sample(recs[0])
    def corrupt(rng, recs):
        good = [r for r in recs if r["end"] == "ok" and r["N"] > 1 and len(r["e"][1]) > 4 and r["interp"]]
        for r in good[:2]:
            b = copy.deepcopy(r); b["e"][1][2][1] += 400; b["e"][1][3][1] = max(0, b["e"][1][3][1] - 400); yield b
            b = copy.deepcopy(r); b["e"][1].pop(2); b["counts"][1] -= 1; yield b
            b = copy.deepcopy(r); b["corpus"] = b["corpus"] + [[3]]; yield b
    ck.validate("LMEstTrace", recs, CFG, corrupt=corrupt)
    ck.assumptions += ["settings with too little memory are refused with a message; that is accepted", "the value printed for <s>, which is never predicted, is left open",
                       "probabilities are compared to 3e-6; a discount that is exactly zero may be rounded below zero and be replaced"]

if __name__ == "__main__": vlib.main("C21", go)

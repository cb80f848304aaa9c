#!/usr/bin/env python3
"""C16: suffix array, phrase lookup and collocations against spec/SuffixIndex.tla"""
import os, sys, copy, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"}
def mc(ck, name, words, size, two, pat, span, freq, sup, v="", want=True, gap=1):
    cfg = ('INIT Init\nNEXT Next\nCONSTANTS\nWords=%d\nSize=%d\nTwo=%s\nMaxPat=%d\nSpan=%d\nMinGap=%d\nFreq=%d\nSuper=%d\nVariant="%s"\n' % (words, size, "TRUE" if two else "FALSE", pat, span, gap, freq, sup, v) +
           "INVARIANT SortInv\nINVARIANT Terminates\nINVARIANT ArrayOk\nINVARIANT LocOk\nINVARIANT IndexOk\nCHECK_DEADLOCK FALSE\n")
    if want: ck.model_check("SuffixIndexMC", cfg, name=name)
    elif ck.tlc("SuffixIndexMC", cfg).ok: raise vlib.CheckError("SuffixIndexMC accepts the wrong design " + v)

def corpus(rng):
    nw = rng.choice([1, 2, 2, 3, 3, 5, 9]); s = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        r = rng.random()
        if r < .1: t = []
        elif s and r < .35: t = list(rng.choice(s))
        elif r < .5: t = ([rng.randint(1, nw) for _ in range(rng.randint(1, 3))] * 8)[:rng.randint(1, 14)]
        else: t = [rng.randint(1, nw) for _ in range(rng.randint(0, rng.choice([3, 6, 12, 20])))]
        if s and rng.random() < .2: t = t + list(rng.choice(s))[:4]
        s.append(t)
    return s
def patterns(rng, c, span, gap, n):
    out = []; nw = max([w for s in c for w in s] + [1])
    def clean(p):
        while p and p[0] == 0: p = p[1:]
        while p and p[-1] == 0: p = p[:-1]
        return p if p and not any(a == 0 and b == 0 for a, b in zip(p, p[1:])) else None
    for _ in range(n):
        s = rng.choice(c)
        if s and rng.random() < .8:   # read off the corpus
            i = rng.randrange(len(s)); p = []; arity = 0
            want = rng.choice([1, 2, 3, 3, 4, 5, 6])
            while i < len(s) and len(p) < want:
                p.append(s[i]); i += 1
                if arity < 3 and rng.random() < .4: p.append(0); arity += 1; i += rng.choice([gap, gap, gap + 1, gap + 2, max(0, gap - 1)])
            if rng.random() < .15 and p: k = rng.randrange(len(p)); p[k] = p[k] and rng.randint(1, nw + 1)
        else: p = [rng.choice([0, 1, 1]) * rng.randint(1, nw + 1) for _ in range(rng.randint(1, 6))]
        p = clean(p)
        if p and p not in out: out.append(p)
    return out
def case(rng):
    c = corpus(rng); span = rng.choice([2, 3, 4, 5, 6, 8, 10, 15]); gap = rng.choice([1, 1, 1, 2, 3])
    return dict(k="index", c=c, span=span, gap=gap, sym=rng.choice([3, 4, 5, 5, 7]), nf=rng.choice([1, 3, 10, 100]), ns=rng.choice([0, 1, 2, 10, 100]),
                fl=rng.choice([1, 2, 3, 4, 4]), mf=rng.choice([1, 1, 2, 2, 3, 5]), ser=rng.random() < .2, bi=rng.random() < .2, mix=rng.random() < .3,
                q=patterns(rng, c, span, gap, 14))
def dense(rng):
    """repetitive corpora whose phrases are nearly all frequent; queries of two or three multi-word chunks"""
    nw = rng.choice([1, 2, 2, 3]); c = []
    for _ in range(rng.choice([1, 2, 3])): c.append([rng.randint(1, nw) for _ in range(rng.randint(5, 16))])
    if rng.random() < .7: c.append([9])   # (phrases that begin with the last word in order are never collected)
    span = rng.choice([6, 8, 10, 12]); gap = rng.choice([1, 1, 2]); q = []
    for _ in range(14):
        s = rng.choice(c); i = rng.randrange(len(s)); p = []
        for k in range(rng.choice([2, 3, 3, 3])):
            n = rng.choice([1, 1, 2, 2, 3])
            if i + n > len(s): break
            p += ([0] if p else []) + s[i:i + n]; i += n + gap + rng.choice([0, 0, 1, 2])
        if p and p not in q: q.append(p)
    return dict(k="index", c=c, span=span, gap=gap, sym=rng.choice([5, 7, 9, 11]), nf=rng.choice([20, 200]), ns=rng.choice([1, 3, 10, 200]), fl=rng.choice([2, 3, 4]), mf=rng.choice([1, 1, 2]), ser=rng.random() < .2, bi=False, mix=rng.random() < .3, q=q)
def small(rng, thorough):
    """every corpus of at most four words over two words, every pattern with at most two gaps"""
    pats = [list(p) for n in (1, 2, 3, 4, 5) for p in itertools.product((0, 1, 2), repeat=n) if p[0] and p[-1] and not any(a == 0 == b for a, b in zip(p, p[1:]))]
    out = []
    for n in range(0, 7 if thorough else 6):
        for w in itertools.product((1, 2), repeat=n):
            for cut in range(0, n + 1) if n else (0,):
                c = [list(w[:cut]), list(w[cut:])] if cut else [list(w)]
                if not thorough and rng.random() < .6: continue
                out.append(dict(k="index", c=c, span=rng.choice([3, 4, 5]), gap=rng.choice([1, 1, 2]), sym=5, nf=100, ns=rng.choice([0, 1, 100]), fl=2, mf=rng.choice([1, 2]), ser=False, bi=False, mix=False, q=pats))
    return out
def record(c, r):
    o = dict(c=c["c"], span=c["span"], gap=c["gap"], q=c["q"]); o.update(r); return o

def go(ck):
    exe = targets.get("extractor")["extractor"]; rng = ck.rng
    mc(ck, "lookups", 2, 4, True, 5, 3, 2, 1)
    mc(ck, "collocations", 2, 7, False, 1, 7, 3, 2)
    for v in ("samestep", "span", "gap", "lastword"): mc(ck, "", 2, 4, True, 5, 3, 2, 1, v, False)
    mc(ck, "", 2, 7, False, 1, 7, 3, 2, "erase", False)
    if ck.thorough:
        mc(ck, "lookups-long", 2, 5, True, 5, 4, 2, 1); mc(ck, "lookups-gap2", 2, 6, False, 5, 6, 2, 1, gap=2)
        mc(ck, "collocations-3", 3, 6, False, 1, 6, 3, 1); mc(ck, "collocations-long", 2, 9, False, 1, 6, 3, 3)
    cases = small(rng, ck.thorough); ns = len(cases)
    for _ in range(18000 if ck.thorough else 700): cases.append(case(rng))
    for _ in range(12000 if ck.thorough else 500): cases.append(dense(rng))
    root = os.path.join(ck.work, "f"); os.makedirs(root, exist_ok=True)
    res = vlib.run_harness([exe, root], cases, case_timeout=30, env=ASAN)
    recs = [record(c, r) for c, r in zip(cases, res)]
    def confirm(r):
        i = [k for k, x in enumerate(recs) if x is r]
        return r if not i else record(cases[i[0]], vlib.run_harness([exe, root], [cases[i[0]]], env=ASAN)[0])
    ok = [r for r in recs if "crash" not in r]
    ck.cov["exhaustive_small_corpora"] = ns; ck.cov["queries"] = sum(len(c["q"]) for c in cases)
    ck.cov["found"] = sum(1 for r in ok for a in r["r"][0] if a["at"]); ck.cov["read_from_collocations"] = sum(a["in"] for r in ok for a in r["r"][0])
    ck.cov["read_with_two_gaps"] = sum(1 for r in ok for q, a in zip(r["q"], r["r"][0]) if a["in"] and q.count(0) == 2)
    ck.log(str(ck.cov)); ck.sample(recs[-1])
    def corrupt(rng, recs):
        n = 0
        for r in recs:
            if "crash" in r or n >= 9 or len(r["sa"]) < 6: continue
            b = copy.deepcopy(r); k = n % 3; n += 1
            if k == 0: b["sa"][2], b["sa"][3] = b["sa"][3], b["sa"][2]
            elif k == 1:
                x = [a for a in b["r"][1] if a["at"]]
                if not x: continue
                x[0]["at"].pop()
            else: b["lcp"][-1] += 1
            yield b
    ck.validate("SuffixIndexTrace", recs, CFG, corrupt=corrupt, confirm=confirm)
    ck.assumptions += ["minimum gap size at least 1", "corpus words are not the reserved names __NULL__ and __END_OF_LINE__", "queries are composed as the rule factory composes them (prefix and suffix placements)"]

if __name__ == "__main__": vlib.main("C16", go)

#!/usr/bin/env python3
"""C17: extracted grammars against spec/GrammarRules.tla"""
import os, sys, copy, re, math
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"}

def bitext(rng, nsent, maxlen, nw):
    """pairs generated from a random reordering of word-by-word translations, with unlinked words and stray links"""
    F, E, A = [], [], []
    def one():
        n = rng.randint(1, maxlen); f = [rng.randint(1, nw) for _ in range(n)]
        if F and rng.random() < .3: f = list(rng.choice(F)) or f; n = len(f)
        order = list(range(n)); r = rng.random()
        if r < .35: pass
        elif r < .5: order.reverse()
        elif r < .75:
            for _ in range(rng.randint(1, 3)): a, b = sorted(rng.sample(range(n + 1), 2)); order[a:b] = order[a:b][::-1]
        else: rng.shuffle(order)
        e, links = [], set(); drop = rng.choice([0, 0, .1, .3])
        for i in order:
            if rng.random() < drop: continue                    # an unlinked source word
            while rng.random() < drop: e.append(20 + rng.randint(1, nw))   # an unlinked target word
            k = rng.choice([1, 1, 1, 1, 2])
            for _ in range(k): links.add((i, len(e))); e.append(10 + f[i] if rng.random() < .8 else 10 + rng.randint(1, nw))
        while rng.random() < drop: e.append(20 + rng.randint(1, nw))
        if not e: e = [11]
        if rng.random() < .3:
            for _ in range(rng.randint(1, 2)): links.add((rng.randrange(n), rng.randrange(len(e))))
        if rng.random() < .1: links = set()
        return f, e, sorted(links)
    for _ in range(nsent):
        f, e, a = one() if rng.random() > .04 else ([], [], [])
        F.append(f); E.append(e); A.append([list(x) for x in a])
    return F, E, A
def case(rng, thorough):
    nw = rng.choice([1, 2, 3, 4, 6]); F, E, A = bitext(rng, rng.choice([1, 2, 3, 4, 6]), rng.choice([3, 5, 7, 9]), nw)
    # alignment files list links in some order, the same everywhere
    if rng.random() < .6:
        key = rng.choice([lambda x: (x[1], x[0]), lambda x: (-x[0], -x[1]), lambda x: (-x[1], -x[0]), lambda x: (x[0], -x[1]), lambda x: (x[1], -x[0])])
        A = [sorted(a, key=key) for a in A]
    span = rng.choice([3, 4, 5, 7, 10]); tight = rng.random() < .65
    o = dict(span=span, gap=rng.choice([1, 1, 2]), sym=min(span, rng.choice([3, 4, 5, 5, 6])), nt=rng.choice([0, 1, 2, 2, 2, 2, 3]), tight=tight)
    S = []
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        s = list(rng.choice(F)) if r < .7 else [rng.randint(1, nw + 1) for _ in range(rng.randint(0, 6))]
        if r < .3 and s: s[rng.randrange(len(s))] = rng.randint(1, nw + 1)
        S.append(s[:8])
    c = dict(k="grammar", f=F, e=E, a=A, s=S, nf=rng.choice([0, 10, 100]), ns=rng.choice([0, 3, 100]), fl=rng.choice([1, 2, 4]), mf=rng.choice([1, 2, 3]),
             max=rng.choice([300, 300, 300, 300, 1, 2, 3]), ser=rng.random() < .15, bi=rng.random() < .2, lo=[], **o)
    if rng.random() < .15: c["lo"] = rng.sample(range(len(F)), rng.randint(1, len(F)))
    return c
def three(rng):
    """gaps of three phrases in every order, around function words"""
    n = rng.choice([2, 3]); f, e, a = [], [], []
    blocks = [rng.choice([[i + 1], [i + 1]]) for i in range(3)]; order = rng.sample(range(3), 3)
    pos = {}
    if rng.random() < .5: f.append(5)
    for i in range(3): pos[i] = len(f); f += blocks[i] + [5 + i]
    if rng.random() < .5: f.pop()
    for i in order:
        if rng.random() < .4: e.append(31)
        a.append([pos[i], len(e)]); e.append(11 + i)
    for i, w in enumerate(f):
        if w >= 5: a.append([i, len(e)]); e.append(10 + w)
    F, E, A = [f], [e], [sorted(a)]
    if rng.random() < .5:
        F.append([4 if w == 1 else w for w in f]); E.append(e); A.append(sorted(a))
    return dict(k="grammar", f=F, e=E, a=A, s=[list(f)], nf=rng.choice([0, 10]), ns=rng.choice([0, 3]), fl=rng.choice([1, 2]), mf=1, max=300, ser=False, bi=False, lo=[],
                span=10, gap=1, sym=rng.choice([5, 6]), nt=3, tight=rng.random() < .8)
RULE = re.compile(r"^\[X\] \|\|\| (.*?) \|\|\| (.*?) \|\|\| (.*) \|\|\|((?: \d+-\d+)*)$")
NAMES = ["EgivenFCoherent", "SampleCountF", "CountEF", "MaxLexFgivenE", "MaxLexEgivenF", "IsSingletonF", "IsSingletonFE"]
def syms(t):
    out = []
    for w in t.split():
        m = re.match(r"^\[X,(\d+)\]$", w)
        if m: out.append(-int(m.group(1)))
        elif re.match(r"^w\d+$", w): out.append(int(w[1:]))
        else: raise ValueError(w)
    return out
def frac(x):
    f = Fraction(10 ** -x).limit_denominator(300000)
    if f <= 0 or abs(-math.log10(f.numerator / f.denominator) - x) > 1e-9: return [0, -1]
    return [f.numerator, f.denominator]
def count(x):
    n = round(10 ** x - 1)
    return n if n >= 0 and abs(math.log10(1 + n) - x) < 1e-9 else -1
def lex(x):
    k = int((x + 1e-6) // 99)
    return [k] + frac(max(0.0, x - 99 * k))
def parse(text):
    out = []
    for line in text.split("\n")[:-1]:
        m = RULE.match(line)
        if not m: return None
        fs = [x.split("=") for x in m.group(3).split()]
        if [x[0] for x in fs] != NAMES: return None
        v = [float(x[1]) for x in fs]
        out.append(dict(s=syms(m.group(1)), t=syms(m.group(2)), p=frac(v[0]), n=count(v[1]), c=count(v[2]), fe=lex(v[3]), ef=lex(v[4]), sf=int(v[5]), sfe=int(v[6]),
                        a=[[int(y) for y in x.split("-")] for x in m.group(4).split()]))
    return out
def record(c, r):
    o = dict(f=c["f"], e=c["e"], a=c["a"], lo=c["lo"], max=c["max"], o={k: c[k] for k in ("span", "gap", "sym", "nt", "tight")})
    if "crash" in r: o["crash"] = r["crash"]; return o
    o["g"] = []
    for s, t in zip(c["s"], r["g"]):
        p = parse(t)
        if p is None: o["crash"] = "unreadable grammar " + t[:300]; return o
        # the begin and end marks around the input never occur in the corpus
        o["g"].append(dict(s=[98] + s + [99], r=p))
    return o

def mc(ck, name, nf, ne, links, span, gap, nt, sym, variant="none", good=True):
    cfg = ("SPECIFICATION Spec\nCONSTANTS\nNF = %d\nNE = %d\nMaxLinks = %d\nSpan = %d\nGap = %d\nNt = %d\nSym = %d\nVariant = \"%s\"\n"
           "INVARIANTS Sound Complete Smallest Least SameAsClosure TargetsOk\nCHECK_DEADLOCK FALSE\n" % (nf, ne, links, span, gap, nt, sym, variant))
    if good: ck.model_check("GrammarRulesMC", cfg, name=name)
    elif ck.tlc("GrammarRulesMC", cfg).ok: raise vlib.Infra("the wrong variant %s of the extraction model was not rejected" % variant)

def go(ck):
    mc(ck, "pairs-4x3", 4, 3, 4, 4, 1, 2, 5)
    for v in ("misslink", "slack", "sameword"): mc(ck, "", 3, 3, 3, 3, 1, 1, 2 if v == "slack" else 4, v, False)
    if ck.thorough:
        mc(ck, "pairs-4x4", 4, 4, 5, 4, 1, 2, 5); mc(ck, "pairs-5x3-gap2", 5, 3, 5, 5, 2, 2, 5); mc(ck, "pairs-5x3-nt3", 5, 3, 5, 5, 1, 3, 5); mc(ck, "pairs-3x5", 3, 5, 5, 4, 1, 2, 5)
    exe = targets.get("extractor")["extractor"]; rng = ck.rng
    cases = [case(rng, ck.thorough) for _ in range(16000 if ck.thorough else 500)]
    cases += [three(rng) for _ in range(800 if ck.thorough else 24)]
    root = os.path.join(ck.work, "f"); os.makedirs(root, exist_ok=True)
    res = vlib.run_harness([exe, root], cases, case_timeout=30, env=ASAN)
    recs = [record(c, r) for c, r in zip(cases, res)]
    def confirm(r):
        i = [k for k, x in enumerate(recs) if x is r]
        return r if not i else record(cases[i[0]], vlib.run_harness([exe, root], [cases[i[0]]], env=ASAN)[0])
    ok = [r for r in recs if "crash" not in r]
    ck.cov["crashes"] = len(recs) - len(ok); ck.cov["rules"] = sum(len(g["r"]) for r in ok for g in r["g"])
    R = [x for r in ok for g in r["g"] for x in g["r"]]; nts = lambda x: sum(1 for w in x["s"] if w < 0)
    ck.cov["rules_by_nonterminals"] = {n: sum(1 for x in R if nts(x) == n) for n in range(4)}
    ck.cov["rules_reordering"] = sum(1 for x in R if [w for w in x["t"] if w < 0] != sorted((w for w in x["t"] if w < 0), reverse=True))
    ck.cov["rules_beginning_or_ending_with_a_nonterminal"] = sum(1 for x in R if x["s"][0] < 0 or x["s"][-1] < 0)
    for n, k in (("loose", lambda c: not c["tight"]), ("sampled", lambda c: c["max"] < 300), ("leaving_sentences_out", lambda c: c["lo"]), ("gap2", lambda c: c["gap"] == 2)): ck.cov["cases_" + n] = sum(1 for c in cases if k(c))
    ck.log(str(ck.cov)); ck.sample(recs[-1])
    def corrupt(rng, recs):
        n = 0
        for r in recs:
            if "crash" in r or n >= 12 or r["max"] < 300 or r["lo"]: continue
            b = copy.deepcopy(r); g = [x for x in b["g"] if x["r"]]
            if not g: continue
            k = n % 4; x = g[0]["r"][0]; n += 1
            if k == 0:
                z = [y for y in g[0]["r"] if all(w > 0 for w in y["s"])]
                if not z: continue
                g[0]["r"].remove(z[0])
            elif k == 1: x["c"] += 1
            elif k == 2: x["a"].append([0, 19])
            else: x["t"] = x["t"] + [x["t"][-1] if x["t"][-1] > 0 else 11] * 9
            yield b
    ck.validate("GrammarRulesTrace", recs, CFG, confirm=confirm, corrupt=corrupt)
    ck.assumptions += ["minimum gap size at least 1; symbols of a rule at most its span", "alignment links without duplicates", "corpus words are not reserved names nor <s>, </s>",
                       "rules of source patterns reaching over one word more than the span limit of the input may or may not be listed", "where more placements exist than samples asked for, only the number of samples and the soundness of rules and counts are decided",
                       "lexical scores whose denominators pass 200000 are not compared"]

if __name__ == "__main__": vlib.main("C17", go)

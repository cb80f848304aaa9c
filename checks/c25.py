#!/usr/bin/env python3
"""C25: word alignment by expectation maximisation, against spec/Aligner.tla"""
import os, sys, re, copy, math, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
ONE = 250000
LN2 = 0.69314718055994530942
# lengths of the two sides and the tensions (in units of log 2) at which the diagonal weights are powers of two
SIZES = [([1], [2, 4, 6]), ([2], [2, 4, 6]), ([1, 2], [2, 4, 6]), ([3], [3, 6]), ([1, 3], [3, 6]), ([4], [4]), ([1, 2, 4], [4, 8]), ([2, 4], [4, 8]), ([1, 2, 3], [6]), ([5], [5]), ([1, 5], [5])]
def lcm(a, b): return a * b // math.gcd(a, b)

def case(rng, i):
    sizes, Ls = rng.choice(SIZES); nw = rng.choice([1, 2, 3, 4]); shared = rng.random() < .3
    def pair():
        n, m = rng.choice(sizes), rng.choice(sizes)
        s = [rng.randint(1, nw) for _ in range(n)]
        t = [rng.randint(1, nw) for _ in range(m)]
        if rng.random() < .5: t = [s[k] if k < n and rng.random() < .8 else x for k, x in enumerate(t)]
        return {"s": s, "t": [x + (0 if shared else 10) for x in t]}
    C = []; toks = [0, 0]
    for _ in range(rng.randint(1, 6)):
        p = pair() if not C or rng.random() < .8 else copy.deepcopy(rng.choice(C))
        if max(toks[0] + len(p["s"]), toks[1] + len(p["t"])) > 15: break
        C.append(p); toks[0] += len(p["s"]); toks[1] += len(p["t"])
    c = {"i": i, "C": C, "iters": rng.choice([1, 2, 2, 3, 3, 4, 5]), "rev": rng.random() < .35, "hide": rng.random() < .25, "tension": False,
         "cfg": {"null": rng.random() < .65, "diag": rng.random() < .6, "p0": rng.choice([8, 8, 20, 50]), "L": rng.choice(Ls), "vb": rng.random() < .25, "alpha": rng.choice([1, 1, 10, 20, 50])},
         "out": rng.random() < .6, "viterbi": rng.random() < .6, "beam": rng.choice([-4, -4, -1, -2, 0, -10000]), "test": [], "force": []}
    if c["cfg"]["diag"] and rng.random() < .35:
        c["tension"] = True; c["iters"] = 3; c["viterbi"] = False
        if rng.random() < .3:      # word pairs seen alone, then in reversed order: the tension falls
            n = rng.choice([2, 3]); c["cfg"]["L"] = rng.choice([2, 4, 6] if n == 2 else [3, 6]); c["cfg"]["null"] = rng.random() < .3
            w = rng.sample([1, 2, 3, 4], n); C[:] = [{"s": [x], "t": [x + 10]} for x in w for _ in range(2 if n == 2 else rng.choice([1, 2]))]
            C += [{"s": w[:], "t": [x + 10 for x in w[::-1]]} for _ in range(rng.choice([1, 2]))]
        elif rng.random() < .5:      # mirrored or parallel pairs drive the tension to its bounds
            d = rng.choice([1, -1]); k = rng.choice([1, 2, 3])
            for p in C:
                if k == 1 or len(p["s"]) == len(p["t"]): p["s"] = [1 + (x + len(p["s"]) * k) % 7 for x in range(len(p["s"]))]; p["t"] = [10 + x for x in p["s"]][::d][:len(p["t"])] + p["t"][len(p["s"]):]
    if rng.random() < .5:
        for _ in range(rng.randint(1, 3)):
            p = pair() if rng.random() < .7 else copy.deepcopy(rng.choice(C)); c["test"].append(p)
    if c["out"] and c["iters"] > 1 and not c["tension"] and rng.random() < .6: c["force"] = [copy.deepcopy(rng.choice(C)) if rng.random() < .5 else pair() for _ in range(rng.randint(1, 3))]
    return c

def sent(y): return " ".join("w%d" % x for x in y)
def line(p): return sent(p["s"]) + " ||| " + sent(p["t"]) + "\n"
def ex(x): return 9 if x != x else math.exp(min(x, 2))
def links(s): return [[int(x) for x in a.split("-")] for a in s.split()]
def poisson(m, lam): return math.log(lam) * m - math.lgamma(m + 1) - lam
def word(x): return 0 if x == "<eps>" else int(x[1:])

def tests(pairs, L, rev, mult, shown):
    out = []
    for p, l in zip(pairs, L):
        t = l.split(" |||"); n, m = (len(p["t"]), len(p["s"])) if rev else (len(p["s"]), len(p["t"]))
        lp = float(t[3])
        out.append({"s": p["s"], "t": p["t"], "echo": t[0] == sent(p["s"]) and t[1].strip() == sent(p["t"]), "shown": shown, "links": links(t[2]),
                    "g": round(min(1.01, ex(lp - poisson(m, 0.05 + n * mult))) * ONE)})
        if not shown and t[2].strip(): out[-1]["echo"] = False
    return out

def run(c, exe, work):
    pre = os.path.join(work, "al%d" % c["i"])
    open(pre + ".c", "w").write("".join(map(line, c["C"])))
    cmd = [exe, "-i", pre + ".c", "-I", str(c["iters"])]
    base = []
    g = c["cfg"]
    if c["rev"]: base.append("-r")
    if g["vb"]: cmd += ["-v", "-a", "%.2f" % (g["alpha"] / 100.0)]
    if g["diag"]: base += ["-d", "-T", "%.17g" % (g["L"] * LN2), "--prob_align_null", "%.2f" % (g["p0"] / 100.0)]
    if not g["null"]: base.append("-N")
    cmd += base
    if c["tension"]: cmd.append("-o")
    if c["hide"]: cmd.append("-H")
    if c["out"]: cmd += ["-p", pre + ".p", "-t", str(c["beam"])]
    if not c["viterbi"]: cmd.append("-V")
    if c["test"]:
        open(pre + ".t", "w").write("".join(map(line, c["test"]))); cmd += ["-x", pre + ".t"]
    try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired: return dict(crash="did not finish", cmd=cmd, case=c)
    if p.returncode: return dict(crash="exit %d" % p.returncode, cmd=cmd, err=p.stderr[-400:], case=c)
    its = re.split(r"ITERATION \d+.*\n", p.stderr)[1:]
    r = {k: c[k] for k in ("C", "iters", "rev", "hide", "tension", "cfg", "out", "viterbi", "beam")}
    r["it"] = []
    def num(pat, t): return float(re.search(pat + r"\s*(\S+)", t).group(1))
    ntok = sum(len(q["s"] if c["rev"] else q["t"]) for q in c["C"])
    for t in its:
        if any(not math.isfinite(float(x)) for x in re.findall(r"[:=] *(-?(?:inf|nan|[\d.]+(?:e[-+]?\d+)?))", t)): return dict(crash="a statistic is not a number", case=c, err=t)
        lik = num("log_e likelihood:", t); feat = -num("posterior al-feat:", t)
        r["it"].append({"lik": round(lik * 1000), "prod": round(ex(lik) * ONE) if ntok <= 5 else -1, "p0": round(num("posterior p0:", t) * 10000), "feat": round(feat * 10000), "feat5": round(feat * 100000),
                        "mod": [{"mod": round(-float(a) * 100000), "ten": round(float(b) * 100000)} for a, b in re.findall(r"model al-feat: (\S+) \(tension=(\S+)\)", t)],
                        "final": round(num("final tension:", t) * 100000) if "final tension" in t else 0})
    r["mult"] = round(num(r"source length \*", its[0]) * 10000)
    mult = sum(len(q["s"]) / len(q["t"]) if c["rev"] else len(q["t"]) / len(q["s"]) for q in c["C"]) / len(c["C"])
    out = p.stdout.split("\n")[:-1]
    na = 0 if c["hide"] else len(c["C"])
    r["aligns"] = [links(x) for x in out[:na]]
    if len(out) != na + len(c["test"]): return dict(crash="%d lines of output" % len(out), case=c)
    r["test"] = tests(c["test"], out[na:], c["rev"], mult, not c["hide"])
    r["params"] = []
    if c["out"]:
        for x in open(pre + ".p"):
            e, f, lp = x.split(); r["params"].append({"e": word(e), "f": word(f), "p": round(ex(float(lp)) * ONE)})
    r["forced"] = []
    if c["force"]:
        open(pre + ".f", "w").write("".join(map(line, c["force"])))
        p = subprocess.run([exe, "-i", pre + ".f", "-f", pre + ".p", "-m", "%.17g" % mult] + base, capture_output=True, text=True, timeout=60)
        if p.returncode: return dict(crash="forced: exit %d" % p.returncode, err=p.stderr[-400:], case=c)
        out = p.stdout.split("\n")[:-1]
        if len(out) != len(c["force"]): return dict(crash="%d lines of forced output" % len(out), case=c)
        r["forced"] = tests(c["force"], out, c["rev"], mult, True)
    return r

def go(ck):
    exe = targets.get("fast_align")["fast_align"]; rng = ck.rng
    MC = "CONSTANTS\nWords=2\nMaxLen=2\nNPairs=%d\nIters=%d\nVariant=\"%s\"\nINIT Init\nNEXT Next\nINVARIANTS SumToOne Posteriors Below\nPROPERTIES Climbs\nCHECK_DEADLOCK FALSE\n"
    ck.model_check("AlignerMC", MC % (2, 3, "right"), name="training")
    if ck.thorough:
        ck.model_check("AlignerMC", MC % (2, 8, "right"), name="training-long")
        ck.model_check("AlignerMC", MC.replace("Words=2", "Words=3") % (2, 2, "right"), name="training-three-words")
    for v in ("best", "bytarget", "noprior"):
        if ck.tlc("AlignerMC", MC % (2, 2, v), name="wrong-" + v).ok: raise RuntimeError("wrong variant %s accepted" % v)
    cases = [case(rng, i) for i in range(12000 if ck.thorough else 700)]
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda c: run(c, exe, ck.work), cases))
    ck.cov["with_tension"] = sum(c["tension"] for c in cases); ck.cov["diagonal"] = sum(c["cfg"]["diag"] for c in cases); ck.cov["variational"] = sum(c["cfg"]["vb"] for c in cases)
    ck.cov["parameter_files"] = sum(c["out"] for c in cases); ck.cov["forced"] = sum(bool(c["force"]) for c in cases)
    ck.sample(recs[0]); ck.sample(recs[-1])
    def corrupt(rng, recs):
        good = [r for r in recs if "crash" not in r]
        r = next(r for r in good if r["aligns"] and not r["tension"] and not r["cfg"]["vb"] and r["iters"] > 2 and r["cfg"]["diag"] and any(x and len(r["C"][k]["s"]) > 1 and len(r["C"][k]["t"]) > 1 for k, x in enumerate(r["aligns"])))
        b = copy.deepcopy(r); x = next(x for x in b["aligns"] if x); x.append(x[0]); yield b
        b = copy.deepcopy(r); b["it"][1]["p0"] += 300; yield b
        r = next(r for r in good if r["params"] and not r["cfg"]["vb"])
        b = copy.deepcopy(r); b["params"][0]["p"] = abs(b["params"][0]["p"] - 3000); yield b
        r = next(r for r in good if r["test"] and not r["tension"] and not r["cfg"]["vb"] and r["iters"] > 1); b = copy.deepcopy(r); b["test"][0]["g"] += 9000; yield b
        r = next(r for r in good if r["tension"]); b = copy.deepcopy(r); b["it"][1]["mod"][3]["mod"] += 300; yield b
    ck.validate("AlignerTrace", recs, CFG, corrupt=corrupt)
    ck.assumptions += ["probabilities are compared to 1.6e-4 per iteration", "the diagonal model is judged at tensions where its weights are powers of two; after the tension was optimised only the updates themselves are judged",
                       "variational Bayes is judged where the total count of every source word is at least one half"]
vlib.main("C25", go)

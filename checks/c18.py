#!/usr/bin/env python3
"""C18: the extraction programs: threads, other sentences, compiled data"""
import os, sys, copy, subprocess, gzip, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, targets, c17
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"

def mc(ck, name, words, n, len1, threads, variant="none"):
    cfg = "SPECIFICATION Spec\nCONSTANTS\nWords = %d\nN = %d\nLen1 = %d\nThreads = {%s}\nVariant = \"%s\"\nINVARIANTS Independent Reported Dictionary\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (words, n, len1, ", ".join("t%d" % i for i in range(1, threads + 1)), variant)
    cfg = cfg.replace("{t1", "{t1")
    cfg = cfg.replace("CONSTANTS\n", "CONSTANTS\n" + "".join("t%d = t%d\n" % (i, i) for i in range(1, threads + 1)))
    if variant == "none": ck.model_check("ExtractRunMC", cfg, name=name)
    elif ck.tlc("ExtractRunMC", cfg).ok: raise vlib.Infra("the wrong variant %s of the extraction run was not rejected" % variant)

def text(ws): return " ".join("w%d" % w for w in ws)
def plan(rng, thorough):
    c = c17.case(rng, thorough) if rng.random() < .85 else c17.three(rng)
    c["max"] = rng.choice([300, 300, 300, 2, 3])
    n = rng.choice([1, 2, 3, 5, 8, 12]); S = []
    for _ in range(n):
        r = rng.random()
        if r < .5 or not S: s = list(rng.choice(c["f"]))[:8]
        elif r < .65: s = list(rng.choice(S))
        elif r < .75: s = []
        else: s = [rng.randint(1, 7) for _ in range(rng.randint(1, 6))]
        if s and rng.random() < .4: s[rng.randrange(len(s))] = rng.choice([1, 2, 3, 40, 41, 42, 43])
        S.append(s)
    c["s"] = S; c["loo"] = rng.random() < .2
    L = []
    for s in S:
        t = text(s)
        r = rng.random()
        if r < .15: t += " ||| w7 id=\"%d\"" % rng.randint(0, 9)
        elif r < .25: t = t + "|||"
        elif r < .3: t += " ||| a ||| b"
        elif r < .4: t = "  " + t.replace(" ", "  ") + " "
        L.append(t)
    c["lines"] = L; c["seed"] = rng.randrange(1 << 30)
    return c
def run(cmd, cwd, inp="", seed=0):
    try: p = subprocess.run(cmd, cwd=cwd, input=inp, capture_output=True, text=True, timeout=60, env=dict(os.environ, OMP_SEED=str(seed), TSAN_OPTIONS="exitcode=0:halt_on_error=0"))
    except subprocess.TimeoutExpired: return "timeout", "", ""
    return p.returncode, p.stdout, p.stderr
def execute(exes, c, root, i):
    rng = random.Random(c["seed"]); d = os.path.join(root, "r%d" % i); os.makedirs(d)
    def put(name, lines):
        with open(os.path.join(d, name), "w") as f: f.write("".join(x + "\n" for x in lines))
    F, E = [text(x) for x in c["f"]], [text(x) for x in c["e"]]
    put("f", F); put("e", E); put("b", ["%s ||| %s" % x for x in zip(F, E)]); put("a", [" ".join("%d-%d" % tuple(y) for y in x) for x in c["a"]])
    corpus = lambda: ["-b", "b"] if rng.random() < .4 else ["-f", "f", "-e", "e"]
    pre = ["--frequent", c["nf"], "--super_frequent", c["ns"], "--max_phrase_len", c["fl"], "--min_frequency", c["mf"]]
    lim = ["--max_rule_span", c["span"], "--max_rule_symbols", c["sym"], "--min_gap_size", c["gap"]]
    ext = ["--max_nonterminals", c["nt"], "--max_samples", c["max"], "--tight_phrases", int(c["tight"])] + (["--leave_one_out"] if c["loo"] else [])
    S = lambda a: [str(x) for x in a]
    rec = dict(lines=[list(x) for x in c["lines"]], loo=c["loo"], runs=[])
    def collect(rc, out, err, which, g, canon, z):
        path = [os.path.join(os.path.realpath(os.path.join(d, g)) if canon else g, "grammar.%d%s" % (k, ".gz" if z else "")) for k in range(len(which))]
        x = dict(rc=rc if rc == 0 else 1, race=err.count("WARNING: ThreadSanitizer"), path=[list(p) for p in path], id=[list(str(k)) for k in range(len(which))],
                 segs=[list(y) for y in out.split("\n")[:-1]], gram=[], **{"in": [w + 1 for w in which]})
        for p in path:
            p = os.path.join(d, p)
            if not os.path.exists(p): x["rc"] = 1; x["gram"].append([]); continue
            with (gzip.open(p, "rt") if z else open(p)) as f: x["gram"].append(sorted(f.read().split("\n")[:-1]))
        if x["race"]: x["report"] = err[err.find("WARNING: Thread"):][:1500]
        rec["runs"].append(x)
    k = len(c["lines"]); nrun = 0
    def ordinary(which, t, seed, precomp=pre):
        nonlocal nrun; g = "g%d" % nrun; nrun += 1
        rc, o, e = run([exes["run_extractor"]] + corpus() + ["-a", "a", "-g", g, "-t", str(t)] + S(precomp + lim + ext), d, "".join(c["lines"][w] + "\n" for w in which), seed)
        collect(rc, o, e, which, g, False, False)
    ordinary(list(range(k)), 1, 0)
    ordinary(list(range(k)), rng.choice([2, 3, 4, 8]), rng.randrange(1, 10000))
    sub = [w for w in range(k) if rng.random() < .6] or [k - 1]
    if not c["loo"] and rng.random() < .6: rng.shuffle(sub)
    ordinary(sub, rng.choice([1, 2, 4]), rng.randrange(1, 10000))
    # what is precomputed makes no difference to what is found
    if c["max"] == 300: ordinary(list(range(k)), 2, 5, ["--frequent", 0, "--super_frequent", 0, "--max_phrase_len", 1, "--min_frequency", 1000])
    out = rng.choice(["comp", "comp", os.path.join(d, "abs")])
    if rng.random() < .2: os.makedirs(os.path.join(d, out))
    rc, o, e = run([exes["sacompile"]] + corpus() + ["-a", "a", "-o", out, "-c", "ini"] + S(pre + lim), d)
    if rc: rec["crash"] = "sacompile %s %s" % (rc, e[-500:])
    else:
        for _ in range(2):
            g = "g%d" % nrun; nrun += 1; z = rng.random() < .4; which = list(range(k)) if rng.random() < .7 else sub
            if rng.random() < .2: os.makedirs(os.path.join(d, g))
            opts = lim + ext
            if rng.random() < .3 and not c["loo"]:     # limits from the configuration file
                put("ini2", open(os.path.join(d, "ini")).read().split("\n") + ["%s = %s" % (str(opts[j])[2:], opts[j + 1]) for j in range(0, len(opts), 2)]); conf, opts = "ini2", []
            else: conf = "ini"
            rc, o, e = run([exes["extract"], "-c", conf, "-g", g, "-t", str(rng.choice([1, 2, 3, 4, 8]))] + (["-z"] if z else []) + S(opts), d, "".join(c["lines"][w] + "\n" for w in which), rng.randrange(1, 10000))
            collect(rc, o, e, which, g, True, z)
    subprocess.run(["rm", "-rf", d])
    return rec
def go(ck):
    exes = targets.get("run_extractor", "sacompile", "extract"); rng = ck.rng
    mc(ck, "run-2", 2, 3, 2, 2)
    for v in ("nolock", "sharedindex", "sharedblack", "early"): mc(ck, "", 2, 2, 1, 2, v)
    if ck.thorough: mc(ck, "run-3", 2, 3, 1, 3); mc(ck, "run-words", 3, 2, 3, 2)
    plans = [plan(rng, ck.thorough) for _ in range(1500 if ck.thorough else 120)]
    root = os.path.join(ck.work, "f"); os.makedirs(root, exist_ok=True)
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda x: execute(exes, x[1], root, x[0]), enumerate(plans)))
    ck.cov["runs"] = sum(len(r["runs"]) for r in recs); ck.cov["sentences"] = sum(len(c["lines"]) for c in plans)
    ck.cov["rules"] = sum(len(g) for r in recs for x in r["runs"] for g in x["gram"]); ck.cov["leave_one_out"] = sum(1 for c in plans if c["loo"])
    ck.log(str(ck.cov)); ck.sample(recs[-1])
    # the grammars of the first run against the declarative specification of extraction
    gr = []
    for c, r in zip(plans, recs):
        if "crash" in r or not r["runs"]: continue
        if c["loo"]: continue
        base = dict(c, lo=[]); o = dict(f=c["f"], e=c["e"], a=c["a"], lo=[], max=c["max"], o={k: c[k] for k in ("span", "gap", "sym", "nt", "tight")}, g=[])
        seen = []
        for s, g in zip(c["s"], r["runs"][0]["gram"]):
            if s in seen: continue
            seen.append(s); p = c17.parse("".join(x + "\n" for x in g))
            if p is None: o["crash"] = "unreadable grammar " + "\n".join(g)[:300]; break
            o["g"].append(dict(s=[98] + s + [99], r=p))
        gr.append(o)
    def again(r):
        i = [k for k, x in enumerate(recs) if x is r]
        return r if not i else execute(exes, plans[i[0]], root, 100000 + i[0])
    def corrupt(rng, recs):
        n = 0
        for r in recs:
            if "crash" in r or n >= 9 or len(r["lines"]) < 2: continue
            b = copy.deepcopy(r); x = b["runs"][-1]; k = n % 3; n += 1
            if k == 0: x["race"] = 1
            elif k == 1: x["segs"][0], x["segs"][-1] = x["segs"][-1], x["segs"][0][:-1]
            else: x["gram"][0] = x["gram"][0] + ["[X] ||| w1 ||| w1"]
            if k == 2 and b["loo"]: continue
            yield b
    ck.validate("ExtractRunTrace", recs, CFG, confirm=again, corrupt=corrupt)
    ck.validate("GrammarRulesTrace", gr, c17.CFG)
    ck.assumptions += ["a grammar is its set of rules: the order of rules with the same source side depends on how words are numbered", "OpenMP constructs run on a pthread implementation of the run time (harness/omp.cc) under a race monitor; reads and writes ordered by its locks are atomic steps of the model",
                       "the same limits are given when compiling and when extracting; grammar directories hold nothing else"]

if __name__ == "__main__": vlib.main("C18", go)

#!/usr/bin/env python3
"""C24: candidate pools of tuning, and what is computed from them, against spec/Pool.tla"""
import os, sys, copy, gzip, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, forests as F
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
UNITS = [[1, 1], [1, 3], [1, 10], [10, 7], [1, 100000], [100003, 1], [1, 1000003], [2097157, 2097152], [2097157, 2097152]]     # the last lies where values are rounded apart
SFX = ["", "", ":a_b", "_x1", "__EQ__;"]     # of feature names ("=" never occurs in one: it is escaped)
METRICS = ["IBM_BLEU", "NIST_BLEU", "TER", "WER"]
LN2 = 0.69314718055994530942

def derivs(g):
    T = [[] for _ in range(g["n"])]
    for v in F.order(g):
        for e in g["E"]:
            if e["h"] != v: continue
            combos = [([], [0] * g["nf"])]
            for t in e["t"]:
                combos = [(ys + [y], [a + b for a, b in zip(fs, f)]) for ys, fs in combos for y, f in T[t]]
            for ys, fs in combos:
                y = []
                for x in e["e"]: y += [x] if x > 0 else ys[-x]
                T[v].append((y, [a + b for a, b in zip(fs, e["f"])]))
    return T[-1]

def forest(rng, maxd, zero=True):
    g = F.rand_forest(rng, nf=3, maxd=maxd, vocab=rng.choice([2, 3]), words=rng.choice([1, 2]), fmax=rng.choice([1, 2]))
    if rng.random() < .25: g["E"] = [dict(e, f=[0, 0, 0]) if rng.random() < .6 else e for e in g["E"]]
    for e in g["E"]:
        if zero and rng.random() < .15:
            k = rng.randint(1, 3)
            if e["f"][k - 1] == 0: e["z"] = k
    return g

def near(rng, g):
    """a forest of the next iteration: much the same"""
    h = copy.deepcopy(g)
    rng.shuffle(h["E"])
    if rng.random() < .6:
        e = rng.choice(h["E"]); e["f"] = [rng.randint(-2, 2) for _ in e["f"]]; e.pop("z", None)
    if rng.random() < .3 and len(h["E"]) > 1:
        k = rng.randrange(len(h["E"])); b = copy.deepcopy(h); del b["E"][k]
        if len(set(e["h"] for e in b["E"])) == b["n"]: h = b
    return h

def ref(rng): return [rng.randint(1, 3) for _ in range(rng.randint(1, 5))]

def pool_case(rng, ck, i, big):
    c = {"op": "pool", "sfx": rng.choice(SFX), "m": rng.choice(METRICS), "u": rng.choice(UNITS), "r": [ref(rng) for _ in range(rng.choice([1, 1, 2]))], "file": os.path.join(ck.work, "pool%d%s" % (i, rng.choice(["", ".gz"])))}
    g = forest(rng, rng.choice([4, 8, 12])); ops = []
    w = [rng.randint(-2, 3) for _ in range(3)]
    for _ in range(rng.randint(1, 5 if big else 4)):
        if ops and rng.random() < .45: ops.append({"op": "reload"}); continue
        ops.append({"op": rng.choice(["add", "add", "uniq"]), "F": g, "w": list(w), "k": rng.choice([0, 1, 2, 3, 5, 50, 50])})
        if rng.random() < .7: g = near(rng, g) if rng.random() < .8 else forest(rng, 8)
        if rng.random() < .6: w = [rng.randint(-2, 3) for _ in range(3)]
    c["ops"] = ops
    if all(o.get("k", 50) == 50 and o["op"] != "uniq" for o in ops) and c["u"] == [1, 1]:
        pool = {(tuple(y), tuple(f)) for o in ops if o["op"] == "add" for y, f in derivs(o["F"])}
        for _ in range(10):
            p = [rng.randint(-2, 2) if rng.random() < .7 else 0 for _ in range(3)]
            n = [sum(a * b for a, b in zip(p, f)) for _, f in pool]
            lo = min(n)
            if max(n) - lo <= 4 and sum(2 ** (x - lo) for x in n) <= 80: c["p"] = p; break
    return c

def wt(x): return "%d.%03d" % (abs(x) // 1000, abs(x) % 1000)
def words(y): return " ".join("w%d" % x for x in y)
def unwords(s): return [int(x[1:]) for x in s.split()]

def parse_repo(path, u, sfx):
    """the three lines of every candidate"""
    if not os.path.exists(path): return None
    t = gzip.open(path, "rt").read()
    L = t.split("\n")
    if t and L[-1] == "": L.pop()
    if len(L) % 3: return None
    out = []
    for k in range(0, len(L), 3):
        f, x = feats(L[k + 1], u, sfx)
        st = [round(float(v) * 1000) for v in L[k + 2].split()[1:]]
        out.append({"y": unwords(L[k]), "f": f, "x": x, "st": st})
    return out

def feats(s, u, sfx):
    f = [0, 0, 0]; x = 0
    for p in s.split():
        n, v = p.rsplit("=", 1); v = float(v) * u[1] / u[0]; r = round(v)
        if n not in ["F%d%s" % (k, sfx) for k in (1, 2, 3)]:
            x += v != 0; continue
        f[int(n[1]) - 1] = r if abs(v - r) < 2e-3 else 999999
    return f, x

def tune_case(rng, ck, i):
    prog = rng.choice(["rampion", "rampion", "pro", "pro", "minrisk"])
    d = os.path.join(ck.work, "tune%d" % i); os.makedirs(d, exist_ok=True)
    ns = rng.choice([1, 2, 2, 3]) if prog != "rampion" else rng.choice([1, 1, 2, 2])
    runs = rng.choice([1, 2, 2])
    c = {"op": "prep", "sfx": rng.choice(SFX), "m": rng.choice(METRICS), "u": [1, 1] if prog == "rampion" else rng.choice([[1, 1], [1, 3], [1, 10]]), "prog": prog, "dir": d, "k": rng.choice([50, 50, 50, 3, 2, 1]), "runs": []}
    sents = []
    for s in range(ns):
        g = forest(rng, rng.choice([1, 4, 6]) if prog == "pro" else 6); fs = [g]
        for _ in range(runs - 1): fs.append(near(rng, fs[-1]) if rng.random() < .8 else forest(rng, 4))
        rf = [y for y, _ in derivs(rng.choice(fs)) if y]      # often one that can be reached
        sents.append({"F": fs, "r": [rng.choice(rf) if rf and rng.random() < .5 else ref(rng)], "write": [os.path.join(d, "f%d_%d.%s" % (s, r, rng.choice(["bin.gz", "bin"]))) for r in range(runs)]})
    c["sents"] = sents
    if prog == "pro":       # pairs of very different lengths are not sampled
        for s in sents:
            n = [len(y) for g in s["F"] for y, _ in derivs(g)]
            if max(n) - min(n) > 4: return None
    for r in range(runs):
        w = [rng.randint(-2, 3) for _ in range(3)]
        if not any(w): w[0] = 1
        c["runs"].append({"w": w, "order": rng.sample(range(ns), ns) if prog != "rampion" else list(range(ns))})
    if prog == "rampion":
        a = {"alpha": rng.choice([1, 2, 4]), "cccp": rng.randint(1, 2), "ssd": rng.randint(1, 2)}
        steps = a["cccp"] * a["ssd"] * ns
        if steps <= 4 and rng.random() < .6: a["Rn"] = 8; a["En"] = 4; a["SC"] = 8 ** steps
        else: a["Rn"] = 0; a["En"] = 4; a["SC"] = 4
        if a["SC"] < 4: a["SC"] = 4
        c["a"] = a
    if prog == "pro": c["xi"] = rng.choice([1, 3, 10])
    return c

def tune_run(c, o, exes):
    ns = len(c["sents"]); d = c["dir"]; repo = os.path.join(d, "repo")
    if c["prog"] == "pro": os.makedirs(repo)
    rp = os.path.join(d, "refs"); open(rp, "w").write("".join(words(s["r"][0]) + "\n" for s in c["sents"]))
    r = {"kind": "tune", "prog": c["prog"], "m": c["m"], "err": o["err"], "k": c["k"], "tab": o["tab"], "xi": c.get("xi", 0), "a": c.get("a", {}), "runs": []}
    for j, run in enumerate(c["runs"]):
        wf = os.path.join(d, "w%d" % j)
        open(wf, "w").write("".join("F%d%s %d\n" % (k + 1, c["sfx"], x) for k, x in enumerate(run["w"]) if x))
        inp = "".join("%s %d\n" % (c["sents"][s]["write"][j], s) for s in run["order"])
        com = ["-r", rp, "-w", wf, "-m", c["m"], "-k", str(c["k"])]
        if c["prog"] == "pro": cmd = [exes["mr_pro_map"]] + com + ["-K", repo, "-X", str(c["xi"]), "-S", str(7 + j)]
        elif c["prog"] == "minrisk": cmd = [exes["minrisk"]] + com + ["-R", repo]
        else:
            a = c["a"]
            cmd = [exes["rampion"]] + com + ["-R", repo, "-I", str(a["cccp"]), "-J", str(a["ssd"]), "--eta", str(1.0 / a["En"]), "-C", str(0.0 if not a["Rn"] else ns * a["En"] / a["Rn"]), "-a", str(a["alpha"])]
        try: p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=20, cwd=d)
        except subprocess.TimeoutExpired: return dict(crash="%s did not finish" % c["prog"], case=c)
        if p.returncode: return dict(crash="%s: exit %d" % (c["prog"], p.returncode), err=p.stderr[-600:], case=c)
        reps = [parse_repo(os.path.join(repo, "kbest.%d.txt.gz" % s), c["u"], c["sfx"]) for s in run["order"]]
        if any(x is None for x in reps): return dict(crash="no pool stored for a sentence", case=c)
        q = {"w": run["w"], "sents": [{"F": c["sents"][s]["F"][j], "repo": reps[k]} for k, s in enumerate(run["order"])]}
        if c["prog"] == "pro":
            q["lines"] = []
            for l in p.stdout.split("\n"):
                if not l: continue
                y, f = l.split("\t"); v, x = feats(f, c["u"], c["sfx"]); q["lines"].append({"y": int(y), "f": v})
        if c["prog"] == "rampion":
            out = {}
            for l in p.stdout.split("\n"):
                t = l.split()
                if len(t) == 2 and l[0] != "#": out[t[0]] = float(t[1])
            q["out"] = [round(out.get("F%d%s" % (k + 1, c["sfx"]), 0.0) * 1e6) for k in range(3)]
        r["runs"].append(q)
    # sentences are listed in the order in which the first run read them
    if len({tuple(x["order"]) for x in c["runs"]}) > 1:
        for run, q in zip(c["runs"], r["runs"]):
            if c["prog"] == "pro": continue
            q["sents"] = [q["sents"][run["order"].index(s)] for s in range(ns)]
        if c["prog"] == "pro": return None
    elif c["runs"][0]["order"] != list(range(ns)): r["tab"] = [o["tab"][s] for s in c["runs"][0]["order"]]
    return r

def mbr_case(rng, i):
    m = rng.choice(["IBM_BLEU", "IBM_BLEU", "NIST_BLEU", "TER", "WER", "CER"]); nf = rng.choice([1, 1, 2])
    groups = []
    empties = m in ("IBM_BLEU", "NIST_BLEU")
    for g in range(rng.randint(1, 4)):
        n = rng.choice([1, 1, 2, 3, 4, 5, 6]) if nf == 1 else rng.choice([2, 3, 4, 5])
        base = [rng.randint(1, 3) for _ in range(rng.randint(1, 7))]
        its = []
        for k in range(n):
            y = [x if rng.random() < .8 else rng.randint(1, 4) for x in base]
            if rng.random() < .3: y.append(rng.randint(1, 4))
            if rng.random() < .2 and len(y) > 1: y.pop()
            if empties and rng.random() < .12: y = []
            its.append({"y": y, "n": rng.randint(-2, 3), "file": 0 if nf == 1 else (k % 2 if k < 2 else rng.randrange(2))})
        groups.append({"id": rng.choice(["%d" % (g * 3 + 1), "seg%d" % g]), "items": its})
    return {"op": "mbr", "m": m, "groups": groups, "lists": [[x["y"] for x in g["items"]] for g in groups], "nf": nf, "list": rng.randrange(2),
            "scale": [rng.choice([1, 1, 2]) if rng.random() < .5 else 1 for _ in range(nf)], "off": [rng.choice([0, 0, 1, 2]) for _ in range(nf)], "i": i}

def mbr_run(c, o, exes, work):
    files = []
    for f in range(c["nf"]):
        p = os.path.join(work, "mbr%d.%d" % (c["i"], f)); files.append(p)
        with open(p, "w") as fo:
            for g in c["groups"]:
                for x in g["items"]:
                    if x["file"] == f: fo.write("%s ||| %s ||| F1=1 ||| %.17g\n" % (g["id"], words(x["y"]), x["n"] * LN2))
    cmd = [exes["mbr_kbest"], "-m", c["m"]]
    if c["nf"] == 1 and c["i"] % 2: inp = open(files[0]).read()
    else:
        inp = ""
        for p in files: cmd += ["-i", p]
    for s in c["scale"]: cmd += ["-a", str(s)]
    for s in c["off"]: cmd += ["-b", "%.17g" % (s * LN2)]
    if c["list"]: cmd.append("-L")
    p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=60)
    if p.returncode: return dict(crash="mbr_kbest: exit %d" % p.returncode, err=p.stderr[-500:], case=c)
    L = p.stdout.split("\n")[:-1]
    r = {"kind": "mbr", "err": o["err"], "list": c["list"], "groups": [], "out": [], "tail": 0}
    for g, sc in zip(c["groups"], o["sc"]):
        n = [x["n"] * c["scale"][x["file"]] + c["off"][x["file"]] for x in g["items"]]; lo = min(n)
        r["groups"].append({"id": g["id"], "n": [x - lo for x in n], "y": [x["y"] for x in g["items"]], "sc": sc})
    k = 0
    for g in c["groups"]:
        if c["list"]:
            rows = []
            for l in L[k:k + len(g["items"])]:
                t = l.split(" |||"); e = float(t[-1])
                rows.append({"id": t[0], "y": unwords(t[1]), "e": round(e * 1e5) if abs(e) < 1e4 else 10 ** 9})
            k += len(rows); r["out"].append(rows)
        elif k < len(L): r["out"].append([{"y": unwords(L[k])}]); k += 1
    r["tail"] = len(L) - k
    return r

def go(ck):
    exes = targets.get("pool", "mr_pro_map", "rampion", "minrisk", "mbr_kbest")
    rng = ck.rng
    MC = "CONSTANTS\nSents=%d\nCands={1,2,3}\nIter=%d\nVariant=\"%s\"\nINIT Init\nNEXT Next\nINVARIANTS Once Kept\nCHECK_DEADLOCK FALSE\n"
    ck.model_check("PoolMC", MC % (2, 3, "right"), name="pools")
    if ck.thorough: ck.model_check("PoolMC", MC % (3, 3, "right"), name="pools-three")
    for v in ("form", "shared", "lossy"):
        if ck.tlc("PoolMC", MC % (2, 2, v), name="wrong-" + v).ok: raise RuntimeError("wrong variant %s accepted" % v)
    n = 3000 if ck.thorough else 360
    cases = [pool_case(rng, ck, i, ck.thorough) for i in range(n)]
    recs = []
    for c, o in zip(cases, vlib.run_harness([exes["pool"]], cases)):
        if "crash" in o: recs.append(dict(crash=o["crash"], case=c)); continue
        z = {"op": "", "w": [], "k": 0, "F": {"n": 0, "nf": 3, "E": []}}
        r = {"kind": "pool", "err": o["err"], "tab": o["tab"], "ops": [dict(z, **x) for x in c["ops"]], "after": o["after"], "p": c.get("p", []), "o": {}}
        if "p" in c: r["o"] = {k: o[k] for k in ("risk", "ent", "rg", "eg", "again")}
        recs.append(r)
    ck.cov["expectations"] = sum(1 for c in cases if "p" in c)
    n = 900 if ck.thorough else 120
    cases = []
    while len(cases) < n:
        c = tune_case(rng, ck, len(cases))
        if c is None: continue
        cases.append(c)
        if c["prog"] == "pro": 
            for q in c["runs"]: q["order"] = c["runs"][0]["order"]
    outs = vlib.run_harness([exes["pool"]], cases)
    def one(k):
        c, o = cases[k], outs[k]
        if "crash" in o: return dict(crash=o["crash"], case=c)
        return tune_run(c, o, exes)
    with ThreadPoolExecutor(8) as ex: recs += [x for x in ex.map(one, range(n)) if x is not None]
    ck.cov["tuning_runs"] = sum(len(c["runs"]) for c in cases)
    n = 1500 if ck.thorough else 200
    cases = [mbr_case(rng, i) for i in range(n)]
    outs = vlib.run_harness([exes["pool"]], cases)
    def two(k): return dict(crash=outs[k]["crash"], case=cases[k]) if "crash" in outs[k] else mbr_run(cases[k], outs[k], exes, ck.work)
    with ThreadPoolExecutor(8) as ex: recs += list(ex.map(two, range(n)))
    ck.sample(recs[0]); ck.sample(recs[-1])
    def corrupt(rng, recs):
        for kind in ("pool", "tune", "mbr"):
            good = [r for r in recs if r.get("kind") == kind]
            if kind == "pool":
                r = next(r for r in good if r["after"][-1]); b = copy.deepcopy(r); b["after"][-1].append(b["after"][-1][0]); yield b
                b = copy.deepcopy(r); b["after"][-1][0]["st"][0] += 1000; yield b
                r = next(r for r in good if r["p"]); b = copy.deepcopy(r); b["o"]["risk"] += 2000; yield b
                b = copy.deepcopy(r); b["o"]["eg"][0] += 20000; b["o"]["eg"][1] -= 20000; yield b
            if kind == "tune":
                r = next(r for r in good if r["prog"] == "rampion"); b = copy.deepcopy(r); b["runs"][-1]["out"][0] += 250000; yield b
                r = next(r for r in good if r["prog"] == "pro" and r["runs"][-1]["lines"]); b = copy.deepcopy(r); x = b["runs"][-1]["lines"][0]; x["y"] = 1 - x["y"]; yield b
                b = copy.deepcopy(r); b["runs"][-1]["sents"][0]["repo"].pop(); yield b
            if kind == "mbr":
                r = next(r for r in good if r["list"] and len(r["groups"][0]["y"]) > 1); b = copy.deepcopy(r); b["out"][0][0]["e"] += 500; yield b
                b = copy.deepcopy(r); b["out"][0][0]["id"] = "other"; yield b
    ck.validate("PoolTrace", recs, CFG, corrupt=corrupt)
    ck.assumptions += ["feature values are integers times one unit, so that pools are compared exactly up to the announced approximation",
                       "statistics and scores of a candidate are those of the metric itself (C13, C14)", "expectations are compared to 4e-4"]
vlib.main("C24", go)

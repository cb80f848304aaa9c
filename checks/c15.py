#!/usr/bin/env python3
"""C15: line search (envelopes, error surfaces, step) against spec/Mert.tla"""
import os, sys, copy, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, metrics as M, forests as F
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
NAMES = ["IBM_BLEU", "IBM_BLEU", "QCRI_BLEU", "NIST_BLEU", "KOEHN_BLEU", "WER", "TER", "COMB:IBM_BLEU=0.5;TER=-0.5", "COMB:NIST_BLEU=0.25;WER=-1;IBM_BLEU=0.75",
         "COMB:KOEHN_BLEU=0.25;IBM_BLEU=0.25;NIST_BLEU=0.25;QCRI_BLEU=0.25"]
NAMES.append("COMB:" + ";".join(k + "_BLEU=0.25" for k in ("KOEHN", "IBM", "NIST", "QCRI", "KOEHN", "IBM", "NIST", "QCRI")))
M.NEW[NAMES[-1]] = M.comb([(M.bleu(k), 25) for k in ("KOEHN", "IBM", "NIST", "QCRI") * 2])
M.NEW[NAMES[-2]] = M.comb([(M.bleu(k), 25) for k in ("KOEHN", "IBM", "NIST", "QCRI")])

def case(rng, big):
    nf = 3
    name = rng.choice(NAMES); ns = rng.choice([1, 1, 2, 3])
    if rng.random() < .15: D = [0, 0, 0]; D[rng.randrange(3)] = 1
    else: D = [rng.randint(-2, 2) for _ in range(nf)]
    O = [rng.randint(-3, 3) if rng.random() < .8 else 0 for _ in range(nf)]
    sents = []
    for _ in range(ns):
        long = rng.random() < .1
        g = F.rand_forest(rng, nf=nf, maxd=rng.choice([6, 20, 60, 150] if big else [6, 20, 40]), vocab=rng.choice([1, 2, 4]), words=rng.choice([1, 2, 3]),
                          fmax=rng.choice([1, 3]))
        if rng.random() < .35:
            for e in g["E"]:
                if rng.random() < .5: e["e"] = [x for x in e["e"] if x <= 0]     # empty yields
        refs = [[rng.randint(1, 4) for _ in range(rng.randint(1, 6))] for _ in range(rng.choice([1, 1, 2, 3]))]
        sents.append({"F": g, "r": refs})
    if not any(D) and rng.random() < .9: D[0] = 1
    c = {"op": "line", "m": name, "O": O, "D": D, "sents": sents, "ser": rng.randrange(2)}
    if rng.random() < .5: c["eps"] = rng.choice([100000, 250000, 500000, 500000, 1000000, 2000000])
    return c

def fine(rng, ck, k):
    """narrow intervals far from the origin: the step must be passed on with all its digits"""
    q = 100; x = rng.randint(1001, 1900) * q + rng.randint(0, q - 2)
    ref = [rng.randint(1, 3) for _ in range(4)]
    L = [(0, 0, [4]), (q, -x, ref), (2 * q, -x - (x + 1), [4, 4])]
    rng.shuffle(L)
    g = {"n": 1, "nf": 3, "E": [dict(h=0, t=[], e=y, f=[b, m, 0], p=1) for m, b, y in L]}
    c = {"op": "line", "m": rng.choice(["IBM_BLEU", "WER", "TER"]), "O": [1, 0, 0], "D": [0, 1, 0], "sents": [{"F": g, "r": [ref]}], "ser": 1}
    c["sents"][0]["write"] = os.path.join(ck.work, "fine%d.bin" % k)
    return c

def ladder(rng):
    """envelopes with chosen breakpoints, clusters of narrow intervals among them"""
    q = rng.choice([1, 4, 10]); ns = rng.choice([1, 2, 2, 3])
    sents = []
    ref = [rng.randint(1, 3) for _ in range(rng.randint(3, 6))]
    for _ in range(ns):
        n = rng.randint(1, 6); k = sorted(rng.sample(range(-20, 20), n)); L = []
        m, b = rng.randint(-3, 3) * q, rng.randint(-3, 3)
        for i in range(n + 1):
            y = [w if rng.random() < .7 else rng.randint(1, 4) for w in ref][: rng.randint(1, 6)]
            L.append((m, b, y))
            if i < n: m += q; b -= k[i]
        if rng.random() < .5: L.append((L[0][0], L[0][1] - 5, ref))     # dominated
        rng.shuffle(L)
        sents.append({"F": {"n": 1, "nf": 3, "E": [dict(h=0, t=[], e=y, f=[b, m, 0], p=1) for m, b, y in L]}, "r": [ref]})
    return {"op": "line", "m": rng.choice(NAMES), "O": [1, 0, 0], "D": [0, 1, 0], "sents": sents, "ser": rng.randrange(2),
            "eps": (1000000 * rng.choice([1, 2, 3, 5])) // q + rng.choice([-100, 100])}

def fv(v): return ";".join("F%d=%s" % (i + 1, x) for i, x in enumerate(v) if x)

def mapreduce(ck, exes, cases, recs, rng):
    """the same search by the map/reduce programs, several directions at a time"""
    d = os.path.join(ck.work, "mr"); os.makedirs(d)
    for ci, (c, r) in enumerate(zip(cases, recs)):
        if "write" not in c["sents"][0] or "crash" in r: continue
        if not any(c["D"]) : continue
        refs = []
        nref = max(len(s["r"]) for s in c["sents"])
        p = os.path.join(d, "ref%d" % ci)
        open(p, "w").write("".join(" ||| ".join(" ".join("w%d" % w for w in x) for x in s["r"]) + "\n" for s in c["sents"]))
        key = fv(c["O"]) + " " + fv(c["D"])
        if "gen" in c:      # agenda written by the generator
            j = c["D"].index(1) + 1
            wf = os.path.join(c["gen"], "weights")
            open(wf, "w").write("# weights\n" + "".join("F%d %d\n" % (i + 1, x) for i, x in enumerate(c["O"])))
            g = subprocess.run([exes["mr_gen"], "-s", str(len(c["sents"])), "-r", c["gen"], "-w", wf, "-d", "0"] + rng.choice([[], ["-o", "F%d" % j]]), capture_output=True, text=True, timeout=60)
            ag = [x.split(" ") for x in g.stdout.split("\n") if x]
            axes = sorted(set(x[-1] for x in ag))
            ok = g.returncode == 0 and all(len(x) == 4 for x in ag) and len(ag) == len(axes) * len(c["sents"]) and "F%d=1" % j in axes
            # the driver script moves the features it finds in the origin, so all of them must be there
            ok = ok and all(sorted(p.split("=")[0] for p in x[2].split(";")) == ["F1", "F2", "F3"] and [float(p.split("=")[1]) for p in sorted(x[2].split(";"))] == c["O"] for x in ag)
            if not ok: recs[ci] = dict(crash="agenda", out=g.stdout, case=c); continue
            ag = [x for x in ag if x[-1] == "F%d=1" % j]
            key = ag[0][2] + " " + ag[0][3]
            lines = [" ".join(x) + "\n" for x in ag]
        else: lines = ["%s %d %s\n" % (s["write"], i, key) for i, s in enumerate(c["sents"])]
        other = "F1=1;F2=0.5 F3=0.25"      # a second search in the same run
        lines += ["%s %d %s\n" % (s["write"], i, other) for i, s in enumerate(c["sents"])]
        rng.shuffle(lines)
        name = c["m"]
        m = subprocess.run([exes["mr_map"], "-m", name, "-r", p], input="".join(lines), capture_output=True, text=True, timeout=60)
        q = subprocess.run([exes["mr_reduce"], "-m", name], input="".join(x + "\n" for x in sorted(m.stdout.split("\n")) if x), capture_output=True, text=True, timeout=60)
        if m.returncode or q.returncode: recs[ci] = dict(crash="map/reduce: %d %d" % (m.returncode, q.returncode), case=c, err=(m.stderr + q.stderr)[-500:]); continue
        out = [x.split("|") for x in q.stdout.split("\n") if x]
        mine = [x for x in out if x[0] == key]
        if len(mine) != 1 or len(out) != (2 if key != other else 1): recs[ci] = dict(crash="map/reduce printed %r" % out, case=c); continue
        r["mr"].append({"pos": micro(float(mine[0][1])), "sc": micro(float(mine[0][2]))})

def micro(x):
    import math
    if x != x or abs(x) >= 2100: return 1999999998
    return math.floor(x * 1e6 + 1e-4)

def go(ck):
    exes = targets.get("mert", "mr_map", "mr_reduce", "mr_gen")
    rng = ck.rng
    INV = "\nINIT Init\nNEXT Next\nINVARIANTS EnvRight ProductRight SearchRight\nCHECK_DEADLOCK FALSE\n"
    K = "CONSTANTS\nMode=\"%s\"\nMs=%s\nBs=%s\nMaxA=%d\nGaps=%s\nEps=3\nScores={0,1,2}\nNB=%d\nKeep=FALSE" + INV
    ck.model_check("MertMC", K % ("env", "{0,1,2}", "{0,1,2}", 3, "{0}", 0), name="envelope")
    ck.model_check("MertMC", K % ("search", "{0}", "{0}", 1, "{0,2,3,4,6}", 4), name="search")
    if ck.thorough:
        ck.model_check("MertMC", K % ("env", "{0,1,2,3}", "{0,1,3}", 3, "{0}", 0), name="envelope-slopes")
        ck.model_check("MertMC", K % ("env", "{0,1,3}", "{0,1,2,3}", 4, "{0}", 0), name="envelope-longer")
        ck.model_check("MertMC", K % ("search", "{0}", "{0}", 1, "{0,2,3,4,6}", 5), name="search-longer")
    n = 6000 if ck.thorough else 600
    cases = [ladder(rng) if rng.random() < .35 else case(rng, ck.thorough) for _ in range(n)]
    for i in range(0, n, 10 if not ck.thorough else 15):
        if any(cases[i]["O"]):
            for k, s in enumerate(cases[i]["sents"]): s["write"] = os.path.join(ck.work, "hg%d_%d.bin" % (i, k))
    for i in range(3, n, 12 if not ck.thorough else 20):
        c = case(rng, False); j = rng.randrange(3); c["D"] = [int(k == j) for k in range(3)]
        if rng.random() < .3: c["O"] = [0, 0, 0]
        c["gen"] = os.path.join(ck.work, "rep%d" % i); os.makedirs(c["gen"])
        for k, s in enumerate(c["sents"]): s["write"] = os.path.join(c["gen"], "%d.bin.gz" % k)
        cases.append(c)
    cases += [fine(rng, ck, k) for k in range(40 if ck.thorough else 8)]
    res = vlib.run_harness([exes["mert"]], cases, case_timeout=30)
    recs = []
    for c, o in zip(cases, res):
        if "crash" in o: recs.append(dict(crash=o["crash"], case=c)); continue
        recs.append({"k": "line", "name": c["m"], "m": M.NEW[c["m"]], "O": c["O"], "D": c["D"], "err": o["err"], "eps": c.get("eps", 15), "pos": o["pos"], "sc": o["sc"], "mr": [],
                     "sents": [dict(s, F=g["F"], r=g["r"]) for s, g in zip(o["sents"], c["sents"])]})
    mapreduce(ck, exes, cases, recs, rng)
    ck.cov["mapreduce_runs"] = sum(1 for r in recs if r.get("mr"))
    ck.cov["breakpoints"] = sum(len(s["hull"]) - 1 for r in recs if "sents" in r for s in r["sents"])
    ck.cov["narrow"] = sum(1 for r in recs if r.get("eps", 15) > 15)
    dc = []
    for _ in range(60):
        nf = rng.randint(1, 6); f = sorted(rng.sample(range(1, nf + 1), rng.randint(1, nf)))
        dc.append({"op": "dirs", "nf": nf, "f": f, "n": rng.choice([0, 1, 5, 20]), "seed": rng.randrange(1, 1000), "inc": rng.choice([1, 1, 0])})
    for c, o in zip(dc, vlib.run_harness([exes["mert"]], dc)):
        recs.append(dict(crash=o["crash"], case=c) if "crash" in o else {"k": "dirs", "nf": c["nf"], "f": c["f"], "n": c["n"], "inc": c["inc"], "dirs": o["dirs"]})
    ck.sample(recs[0]); ck.sample(recs[-1])
    def corrupt(rng, recs):
        good = [r for r in recs if r.get("k") == "line" and any(len(s["hull"]) > 1 for s in r["sents"])]
        for r in good[:1]:
            b = copy.deepcopy(r); s = next(s for s in b["sents"] if len(s["hull"]) > 1); s["hull"][1]["x"] += 5; yield b
            b = copy.deepcopy(r); b["sc"] += 2000 if not b["err"] else -2000; yield b
            b = copy.deepcopy(r); s = next(s for s in b["sents"] if len(s["hull"]) > 1); s["hull"].pop(); yield b
    ck.validate("MertTrace", recs, CFG, corrupt=corrupt)
    ck.assumptions += ["feature values, origin and direction are integers, so that breakpoints are compared exactly", "scores are compared to 6e-5 (4e-4 for combinations)"]

vlib.main("C15", go)

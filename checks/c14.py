#!/usr/bin/env python3
"""C14: word/character error counts and translation edit rate against spec/EditDist.tla"""
import os, sys, copy, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, metrics as M
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
E = "\nINIT Init\nNEXT Next\nINVARIANTS EditSound EditTight Symmetric TerSound\nCHECK_DEADLOCK FALSE\n"

def mk(name, op, sents, rng):
    sums = [[[i, 0] for i in range(len(sents))], [[i, rng.randrange(len(sents[i]["h"]))] for i in range(len(sents)) for _ in (0, 1)]]
    return {"op": op, "m": name, "sents": sents, "sums": sums}

def go(ck):
    exes = targets.get("mteval")
    rng = ck.rng
    ck.model_check("EditDistMC", 'CONSTANTS\nMode="edit"\nA={1,2}\nMaxL=%d' % (4 if ck.thorough else 3) + E, name="edit")
    ck.model_check("EditDistMC", 'CONSTANTS\nMode="shift"\nA={1,2%s}\nMaxL=4' % ",3" + E, name="shift")
    cases, ms = [], []
    def add(name, op, m, sents):
        cases.append(mk(name, op, sents, rng)); ms.append(m)
    NM = [("WER", "seg", {"t": "wer"}), ("CER", "seg", {"t": "cer"}), ("wer", "old", {"t": "oldwer"})]
    # --- every pair of short sentences
    S = [list(x) for L in range(0, 5 if ck.thorough else 4) for x in itertools.product("ab", repeat=L)]
    for name, op, m in NM:
        for r in S: add(name, op, m, [{"r": [r], "h": S}])
    # several references: ties, empty references, references in any order
    for _ in range(8000 if ck.thorough else 900):
        name, op, m = rng.choice(NM)
        c = M.case(rng, name, m, op, ns=3, maxlen=9)
        cases.append(c); ms.append(m)
    # --- translation edit rate: the reported edits must describe a transformation
    T = [list(x) for L in range(0, 5) for x in itertools.product("abc", repeat=L) if L < 4 or len(set(x)) == 3 or ck.thorough]
    for r in T:
        hs = T if ck.thorough else rng.sample(T, 12)
        for h in hs: add(*rng.choice([("TER", "seg"), ("ter", "old")]), M.TERD, [{"r": [r], "h": [h]}])
    def short(rng, voc, k): return [rng.choice(voc) for _ in range(rng.randint(0, k))]
    for _ in range(5000 if ck.thorough else 500):
        voc = rng.choice([["a", "b"], ["a", "b", "c"], ["a", "b", "c", "d", "e", "f"]])
        base = short(rng, voc, 6)
        refs = [base] + [M.perturb(rng, base, voc)[:6] for _ in range(rng.choice([0, 0, 1, 2]))]
        h = M.perturb(rng, rng.choice(refs), voc)[:6] if rng.random() < .8 else short(rng, voc, 6)
        add(*rng.choice([("TER", "seg"), ("ter", "old")]), M.TERD, [{"r": refs, "h": [h]}])
    # longer sentences: bounds, exact matches, lengths
    for _ in range(3000 if ck.thorough else 350):
        name, op = rng.choice([("TER", "seg"), ("ter", "old")])
        c = M.case(rng, name, M.TER, op, ns=3, maxlen=rng.choice([8, 14])); cases.append(c); ms.append(M.TER)
    # one block moved in a text of distinct words
    moved = []
    for _ in range(1500 if ck.thorough else 300):
        n = rng.randint(2, 14); r = ["w%d" % k for k in rng.sample(range(40), n)]
        i = rng.randrange(n); j = rng.randint(i + 1, min(n, i + 9)); b = r[i:j]; rest = r[:i] + r[j:]
        p = rng.choice([q for q in range(len(rest) + 1) if q != i] or [None])
        if p is None: continue
        h = rest[:p] + b + rest[p:]
        moved.append(mk("TER" if rng.random() < .6 else "ter", None, [{"r": [r], "h": [h]}], rng)); moved[-1]["op"] = "seg" if moved[-1]["m"] == "TER" else "old"
    res = vlib.run_harness([exes["mteval"]], cases + moved, case_timeout=60)
    recs = [M.record(c, m, o) for c, m, o in zip(cases, ms, res)]
    for c, o in zip(moved, res[len(cases):]):
        recs.append(dict(crash=o["crash"], case=c) if "crash" in o else {"k": "moved", "name": c["m"], "sents": c["sents"], "st": o["st"]})
    for r in (recs[5], recs[len(S) * 3 + 10], recs[-1]): ck.sample(r)
    ck.cov["shifts"] = sum(1 for r in recs if r.get("m", {}).get("t") == "ter" for s in r["st"] for t in s if t[3] > 0)
    ck.cov["several_shifts"] = sum(1 for r in recs if r.get("m", {}).get("t") == "ter" for s in r["st"] for t in s if t[3] > 1000)
    def corrupt(rng, recs):
        for r in recs:
            if r.get("k") == "seg" and r["m"]["t"] == "wer" and r["st"][0][0][0] > 0:
                b = copy.deepcopy(r); b["st"][0][0][0] += 1000; yield b; break
        for r in recs:
            if r.get("k") == "seg" and r["m"].get("deep") and sum(r["st"][0][0][:4]) > 0:
                b = copy.deepcopy(r); t = b["st"][0][0]; k = next(q for q in range(4) if t[q]); t[k] -= 1000; t[(k + 1) % 3 if k < 3 else 2] += 1000; yield b; break
    ck.validate("MetricsTrace", recs, CFG, corrupt=corrupt)
    ck.assumptions += ["CER counts bytes; inputs are ASCII", "realisability of TER's edits by block moves is decided up to 6 words; longer sentences by bounds"]

vlib.main("C14", go)

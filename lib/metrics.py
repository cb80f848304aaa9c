"""Inputs and records shared by the metric checks (C13, C14)."""
import os, subprocess, random
def bleu(kind, N=4, chars=False, old=False): return {"t": "bleu", "kind": kind, "N": N, "chars": chars, "old": old}
def size(m):
    return {"bleu": lambda: 2 * m["N"] + 2, "wer": lambda: 2, "cer": lambda: 2, "ter": lambda: 5, "comb": lambda: m.get("size")}[m["t"]]()
def comb(parts):
    off, out = 0, []
    for mm, coef in parts:
        out.append({"m": mm, "off": off, "size": size(mm), "coef": coef}); off += size(mm)
    return {"t": "comb", "parts": out, "size": off}
TER, TERD = {"t": "ter", "deep": False}, {"t": "ter", "deep": True}
NEW = {"IBM_BLEU": bleu("IBM"), "NIST_BLEU": bleu("NIST"), "KOEHN_BLEU": bleu("KOEHN"), "QCRI_BLEU": bleu("QCRI"), "CBLEU": bleu("IBM", 5, True),
       "WER": {"t": "wer"}, "CER": {"t": "cer"}, "TER": TER,
       "COMB:IBM_BLEU=0.5;TER=-0.5": comb([(bleu("IBM"), 50), (TER, -50)]),
       "COMB:NIST_BLEU=0.25;WER=-1;IBM_BLEU=0.75": comb([(bleu("NIST"), 25), ({"t": "wer"}, -100), (bleu("IBM"), 75)]),
       "comb:cer=-0.5;ibm_bleu=1": comb([({"t": "cer"}, -50), (bleu("IBM"), 100)])}
OLD = {"ibm_bleu": bleu("IBM", old=True), "ibm_bleu_3": bleu("IBM", 3, old=True), "nist_bleu": bleu("NIST", old=True), "koehn_bleu": bleu("KOEHN", old=True),
       "ter": TER, "wer": {"t": "oldwer"}, "ser": {"t": "ser"}}
def chars(s): return list(" ".join(s))
def perturb(rng, s, voc):
    s = list(s)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.randrange(5)
        if k == 0 and s: del s[rng.randrange(len(s))]
        elif k == 1: s.insert(rng.randrange(len(s) + 1), rng.choice(voc))
        elif k == 2 and s: s[rng.randrange(len(s))] = rng.choice(voc)
        elif s:
            i = rng.randrange(len(s)); j = rng.randrange(i, len(s)) + 1
            b = s[i:j]; del s[i:j]; p = rng.randrange(len(s) + 1); s[p:p] = b
    return s
def sentence(rng, voc, m): return [rng.choice(voc) for _ in range(rng.choice([0, 1, 2] + list(range(3, m + 1)) * 2))]
VOCS = [["a"], ["a", "b"], ["a", "b", "c"], ["the", "cat", "sat", "on", "mat", "a"], ["ab", "abc", "b", "ca"], ["x%d" % i for i in range(30)]]
def words_utf8(rng): return rng.choice([["é", "e", "日本", "本", "ß"], ["añ", "ñ", "a"]])
def case(rng, name, m, op, ns=3, maxlen=8, utf8=False):
    voc = rng.choice(VOCS)
    if utf8: voc = words_utf8(rng)
    if m.get("chars") or m["t"] == "cer" : maxlen = min(maxlen, 5)
    ss = []
    for _ in range(rng.randint(1, ns)):
        base = sentence(rng, voc, maxlen)
        refs = [base] + [perturb(rng, base, voc) if rng.random() < .8 else sentence(rng, voc, maxlen) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        hyps = [perturb(rng, rng.choice(refs), voc) if rng.random() < .75 else sentence(rng, voc, maxlen) for _ in range(rng.randint(1, 3))]
        ss.append({"r": refs, "h": hyps})
    sums = [[[i, 0] for i in range(len(ss))]]
    for _ in range(2): sums.append([[i, rng.randrange(len(ss[i]["h"]))] for i in (rng.randrange(len(ss)) for _ in range(rng.randint(1, 5)))])
    return {"op": op, "m": name, "sents": ss, "sums": sums}
def record(c, m, o):
    if "crash" in o: return dict(crash=o["crash"], case=c)
    r = {"k": "seg", "name": c["m"], "m": m, "op": c["op"], "st": o["st"],
         "sents": [{"r": s["r"], "h": s["h"], "rc": [chars(x) for x in s["r"]], "hc": [chars(x) for x in s["h"]]} for s in c["sents"]], "sums": []}
    for q, ix in zip(o["sums"], c["sums"]):
        r["sums"].append(dict(q, ix=[[i + 1, k + 1] for i, k in ix]))
    return r

#!/usr/bin/env python3
"""C13: evaluation statistics, sums and scores against spec/Metrics.tla"""
import os, sys, subprocess, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, metrics as M
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
COUNTER = [0]

def docs(ck, rng, exes, n):
    """documents: reference files with alternatives, empty lines, missing final newlines; read by the
    library and by the command line scorer"""
    out = []
    names = ["IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU", "WER", "TER", "COMB:IBM_BLEU=0.5;TER=-0.5"]
    cases, metas = [], []
    for _ in range(n):
        name = rng.choice(names)
        voc = rng.choice(M.VOCS); nf = rng.choice([1, 1, 2, 3]); ns = rng.randint(1, 4)
        files = [[] for _ in range(nf)]; hyps = []
        for i in range(ns):
            base = M.sentence(rng, voc, 7)
            if rng.random() < .04: base = ["w%d%s" % (k, "x" * 9000) for k in range(rng.choice([3, 8, 9]))]   # lines of any length
            for f in range(nf):
                line = []
                for a in range(rng.choice([1, 1, 1, 2, 3])):
                    if a: line.append("|||")
                    line += M.perturb(rng, base, voc) if rng.random() < .7 else M.sentence(rng, voc, 6)
                files[f].append([] if rng.random() < .1 else line)
            hyps.append(M.perturb(rng, base, voc))
        COUNTER[0] += 1
        d = os.path.join(ck.work, "doc%d" % COUNTER[0]); os.makedirs(d)
        paths = []
        eol = rng.random() < .7
        for f in range(nf):
            p = os.path.join(d, "r%d" % f); paths.append(p)
            text = "".join(" ".join(x) + "\n" for x in files[f])
            # a last line that is empty needs its newline to be a line at all
            if not eol and files[f][-1]: text = text[:-1]
            open(p, "w").write(text)
        c = {"op": "doc", "m": name, "files": paths, "h": hyps, "verbose": rng.randrange(2)}
        cases.append(c); metas.append((name, files, hyps, d))
        if rng.random() < .25:      # the deprecated reader
            o = rng.choice(["ibm_bleu", "nist_bleu", "koehn_bleu", "ter", "wer"])
            cases.append({"op": "doc", "old": 1, "m": o, "files": paths, "h": hyps}); metas.append((o, files, hyps, None))
        if rng.random() < .3:      # source ||| ref ||| ref
            p = os.path.join(d, "sr"); lines = []
            srcs = []
            for i in range(ns):
                src = " ".join(M.sentence(rng, voc, 3) or ["s"]); srcs.append(src)
                if not files[0][i]: files[0][i] = ["q"]      # a line is SRC ||| REF
                lines.append(src + " ||| " + " ".join(files[0][i]))
            for f, path in zip(files, paths): open(path, "w").write("".join(" ".join(x) + "\n" for x in f))
            open(p, "w").write("\n".join(lines) + ("\n" if rng.random() < .7 else ""))
            cases.append({"op": "doc", "m": name, "src": p, "h": hyps}); metas.append((name, files[:1], hyps, None, srcs))
    res = vlib.run_harness([exes["mteval"]], cases)
    for c, m, o in zip(cases, metas, res):
        if "crash" in o: out.append(dict(crash=o["crash"], case=c, files=m[1])); continue
        r = {"k": "doc", "name": m[0], "m": M.NEW.get(m[0]) or M.OLD[m[0]], "files": m[1], "lines": len(m[1][0]), "h": m[2], "n": o["n"], "st": [x[0] for x in o["st"]]}
        if len(m) > 4: r["srcs"] = o["srcs"]; r["wantsrcs"] = m[4]
        elif m[3] and rng.random() < .6:
            nh = len(m[2]); hy = list(m[2])
            x = rng.random()
            if x < .1: nh += 2; hy += [["a"], ["b"]]
            elif x < .25 and nh > 1: nh -= 1
            text = "".join(" ".join(h) + "\n" for h in hy[:nh])
            if rng.random() < .3 and hy[nh - 1]: text = text[:-1]
            args = [exes["fast_score"], "-m", rng.choice([m[0], m[0].lower()])]
            for p in c["files"]: args += ["-r", p]
            inp = os.path.join(m[3], "hyp"); open(inp, "w").write(text)
            try:
                if rng.random() < .5: p = subprocess.run(args + ["-i", inp], capture_output=True, text=True, timeout=20)
                else: p = subprocess.run(args, input=text, capture_output=True, text=True, timeout=20)
                r["rc"] = p.returncode; r["nh"] = nh
                r["sc"] = 0
                if p.returncode == 0:
                    v = float(p.stdout)
                    r["sc"] = 1999999999 if not abs(v) < 2000 else round(v * 1e6)
            except (subprocess.TimeoutExpired, ValueError) as e:
                r = dict(crash="fast_score: %r" % e, case=c, files=m[1])
        out.append(r)
    return out

def go(ck):
    exes = targets.get("mteval", "fast_score")
    rng = ck.rng
    A = "INIT Init\nNEXT Next\nINVARIANTS Counted Sane Commutes\nCHECK_DEADLOCK FALSE\n"
    ck.model_check("MetricsMC", "CONSTANTS\nA={1,2}\nMaxH=3\nMaxR=3\nN=2\nNH=2\n" + A, name="MetricsMC")
    if ck.thorough:
        ck.model_check("MetricsMC", "CONSTANTS\nA={1,2}\nMaxH=5\nMaxR=4\nN=3\nNH=1\n" + A, name="MetricsMC-long")
        ck.model_check("MetricsMC", "CONSTANTS\nA={1,2,3}\nMaxH=4\nMaxR=3\nN=4\nNH=1\n" + A, name="MetricsMC-wide")
    n = 14000 if ck.thorough else 2200
    names = [(k, v, "seg") for k, v in M.NEW.items()] + [(k, v, "old") for k, v in M.OLD.items()]
    wts = [4 if v["t"] == "bleu" else 2 for _, v, _ in names]
    cases, ms = [], []
    for _ in range(n):
        k, m, op = rng.choices(names, wts)[0]
        utf8 = k == "CBLEU" and rng.random() < .3
        cases.append(M.case(rng, k, m, op, ns=4, utf8=utf8)); ms.append(m)
    # every hypothesis over two words against every pair of references, short lengths
    import itertools
    S = [list(x) for L in range(0, 4) for x in itertools.product("ab", repeat=L)]
    for k in ("IBM_BLEU", "QCRI_BLEU", "KOEHN_BLEU", "NIST_BLEU", "CER", "WER"):
        for refs in ([[r] for r in S] + [[r, q] for r in S for q in S if (len(r) + len(q)) % 2][: 10 ** 6 if ck.thorough else 25]):
            cases.append({"op": "seg", "m": k, "sents": [{"r": refs, "h": S}], "sums": [[[0, i]] for i in range(0, len(S), 3)]}); ms.append(M.NEW[k])
    res = vlib.run_harness([exes["mteval"]], cases)
    recs = [M.record(c, m, o) for c, m, o in zip(cases, ms, res)]
    # statistics of any size survive their textual form
    enc = []
    for _ in range(600 if ck.thorough else 150):
        d = rng.choice([1, 1, 3, 10, 64, 7])
        f = [rng.choice([rng.randrange(100), rng.randrange(10 ** 6), rng.randrange(10 ** 7), 16777215, 999999, 1000001, 0]) for _ in range(rng.randint(1, 10))]
        enc.append({"op": "enc", "m": rng.choice(["IBM_BLEU", "TER", "x"]), "f": f, "d": d})
    for c, o in zip(enc, vlib.run_harness([exes["mteval"]], enc)):
        recs.append(dict(crash=o["crash"], case=c) if "crash" in o else {"k": "enc", "f": c["f"], "d": c["d"], "ok": o["ok"], "vals": o["vals"] if c["d"] == 1 else c["f"]})
    recs += docs(ck, rng, exes, 1500 if ck.thorough else 250)
    for r in recs[:1] + recs[n:n + 1] + recs[-1:]: ck.sample(r)
    ck.cov["metrics"] = sorted(set(c["m"] for c in cases))
    def corrupt(rng, recs):
        for r in recs:
            if r.get("k") == "seg" and r["m"]["t"] == "bleu" and r["st"][0][0][0] > 0:
                b = copy.deepcopy(r); b["st"][0][0][0] -= 1000; yield b
                b = copy.deepcopy(r); b["sums"][0]["sc"] += 1000; yield b
                b = copy.deepcopy(r); b["sums"][0]["f"][1] += 1000; yield b
                return
    ck.validate("MetricsTrace", recs, CFG, corrupt=corrupt)
    ck.assumptions += ["scores are compared to 6e-5 (4e-4 for combinations)", "character metrics: ASCII for CER, UTF-8 for CBLEU"]

vlib.main("C13", go)

#!/usr/bin/env python3
"""C06: rescoring with stateful models, against spec/Rescore.tla"""
import os, sys, copy, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, scfg
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
E8 = 125                                              # an eighth, in thousandths

def arpa(order, tab):
    """tab: {tuple: (p, b)} in thousandths"""
    t = "\\data\\\n" + "".join("ngram %d=%d\n" % (n, sum(len(g) == n for g in tab)) for n in range(1, order + 1))
    for n in range(1, order + 1):
        t += "\n\\%d-grams:\n" % n
        for g, (p, b) in tab.items():
            if len(g) == n: t += "%s\t%s%s\n" % (repr(p / 1000), " ".join(g), "\t" + repr(b / 1000) if n < order and b is not None else "")
    return t + "\n\\end\\\n"

def model(rng, words, unk, name, marked=False):
    order = rng.choice([2, 2, 3, 3, 4])
    v = [w for w in words if rng.random() < .8] or [words[0]]
    pr = lambda: -E8 * rng.randint(0, 24)
    bo = lambda: E8 * rng.choice([0, 0, 1, 2, -1, -3, -6, -8, -16])
    tab = {("<s>",): (-92400, bo()), ("</s>",): (pr(), 0)}
    if unk: tab[("<unk>",)] = (pr(), 0)
    for w in v: tab[(w,)] = (pr(), bo())
    dense = rng.choice([.2, .4, .7])
    holes = rng.choice([0, 0, 1, 2])                  # n-grams whose own suffix is not listed (KenLM takes a few)
    def at(g): return tab[g][0] if g in tab else at(g[1:]) + (tab[g[:-1]][1] or 0 if g[:-1] in tab else 0)
    for n in range(2, order + 1):
        new = {}
        for g in [g for g in tab if len(g) == n - 1 and g[-1] != "</s>" and g[0] != "<unk>"]:
            for w in v + ["</s>"]:
                h = g + (w,)
                hole = n > 2 and h[1:] not in tab
                if hole and (holes == 0 or sum(len(q) == n - 1 for q in tab) < 12): continue
                if hole and any(at(h[k:]) > 0 for k in range(1, n)): continue   # stored probabilities are at most one
                if rng.random() < dense:
                    holes -= hole
                    new[h] = (pr(), bo() if w != "</s>" and rng.random() < .8 else 0)
        if not new and n == 2: new[("<s>", v[0])] = (pr(), bo())
        if not new: order = n - 1; break
        tab.update(new)
    return order, tab

def marked_grammar(rng):
    words, tgt = ["a", "b"], ["x", "y", "z"]
    rs = [scfg.rule("X", [[0, w]], [rng.choice(tgt)], scfg.rand_feats(rng)) for w in words]
    rs += [scfg.rand_rule(rng, ["X"], ["X"], words, tgt, order={"X": 0}) for _ in range(rng.randint(2, 6))]
    rs = scfg.distinct(rs + [scfg.rule("X", [[1, "X"], [1, "X"]], rng.choice([["[1]", "[2]"], ["[2]", "[1]"]]), {})] * (rng.random() < .6))
    rs.append(scfg.rule("S", [[1, "X"]], ["<s>", "[1]", "</s>"], {}))
    n = rng.randint(1, 4)
    t, L = scfg.sentence(rng, words, n)
    return dict(files={"g0": scfg.grammar_text(rng, rs)}, cfg=["formalism=scfg", "grammar=g0", "scfg_max_span_limit=10", "scfg_no_hiero_glue_grammar=1"], want="F", **{"in": [t]})

def wide_grammar(rng):
    """rules with three and four variables over words with several translations"""
    words, tgt = ["a", "b"], ["x", "y", "z"]
    k = rng.choice([3, 3, 4])
    rs = []
    for w in words:
        for e in rng.sample(tgt, rng.choice([1, 2, 2, 3] if k == 3 else [1, 2, 2])): rs.append(scfg.rule("X", [[0, w]], [e], scfg.rand_feats(rng)))
    e = ["[%d]" % (i + 1) for i in range(k)]; rng.shuffle(e)
    if rng.random() < .5: e.insert(rng.randint(0, k), rng.choice(tgt))
    rs.append(scfg.rule("Y", [[1, "X"]] * k, e, scfg.rand_feats(rng)))
    rs.append(scfg.rule("S", [[1, "Y"]], ["[1]"], {}))
    t, L = scfg.sentence(rng, words, k)
    return dict(files={"g0": scfg.grammar_text(rng, scfg.distinct(rs))}, cfg=["formalism=scfg", "grammar=g0", "scfg_max_span_limit=10", "scfg_no_hiero_glue_grammar=1"], want="F", **{"in": [t]})

def case(rng, big):
    mk = rng.random() < .15
    c = marked_grammar(rng) if mk else wide_grammar(rng) if rng.random() < .15 else scfg.make(rng, big, .35)[0]
    c = dict(c, **{"in": c["in"][:1]}, lax=1)
    tgt = ["x", "y", "z"]
    lms, ffs, files = [], [], dict(c["files"])
    models, bins = [], []
    def lm(k, name):
        unk = rng.random() < .7
        cls = []
        vocab = tgt + ["w", "a", "b"]
        if rng.random() < .2 and not mk:
            ws = [w for w in vocab if rng.random() < .8]; vocab = ["K1", "K2"]
            cls = [[w, rng.choice(vocab), -E8 * rng.randint(0, 6)] for w in ws]
            files["cls%d" % k] = "".join("%s %s %s\n" % (q, w, repr(e / 1000)) for w, q, e in cls)
        order, tab = model(rng, vocab, unk, name)
        files["lm%d" % k] = arpa(order, tab)
        f = "lm%d" % k
        if rng.random() < .3: f = "bin%d" % k; bins.append(["lm%d" % k, f, rng.choice(["trie", "trie", "array", "probing"])])
        models.append(dict(kind="lm", order=order, name=name, marked=mk, cls=cls, tab=[[list(g), p, b] for g, (p, b) in tab.items()]))
        return "KLanguageModel " + f + (" -n " + name if name != "LanguageModel" else "") + (" -x" if mk else "") + (" -m cls%d" % k if cls else "")
    r = rng.random()
    if r < .8: ffs.append(lm(0, "LanguageModel" if rng.random() < .6 else "LM0"))
    if r < .15: ffs.append(lm(1, "Second"))
    if (r > .65 or rng.random() < .15) and not mk:
        m = dict(kind="ngram", order=rng.choice([1, 2, 2, 3, 3, 4, 5]), name="", sep="_", cls=[])
        p = "NgramFeatures -o %d" % m["order"]
        if rng.random() < .2: m["sep"] = "|"; p += " -S |"
        if rng.random() < .2: m["name"] = "N"; p += " -n N"
        if rng.random() < .2:
            m["cls"] = [[w, rng.choice(["K1", "K2"])] for w in tgt + ["w", "a"] if rng.random() < .8]
            if m["cls"]: files["ncl"] = "".join("%s %s\n" % (q, w) for w, q in m["cls"]); p += " -c ncl"
        if m["order"] == 3 and rng.random() < .5: p = p.replace(" -o 3", "")
        models.append(m); ffs.append(p)
    if not ffs: ffs.append(lm(0, "LanguageModel"))
    order = list(range(len(ffs)))
    if rng.random() < .4: models.append(dict(kind="words")); ffs.append("WordPenalty")
    rng.shuffle(ffs)
    names = ["A", "B", "Cc", "Glue", "PassThrough", "LatticeCost", "Lx", "LanguageModel", "LM0", "KLanguageModel", "KLanguageModel_OOV", "Second", "LanguageModel_OOV", "LM0_OOV", "LM0_Emit", "U:x", "B:x_y", "B:<s>_x", "T:<s>_x_y", "B:x_</s>"]
    w = [[n, rng.randint(-8, 8)] for n in names if rng.random() < .6]
    inc = next((k for k, m in enumerate(models) if m["kind"] == "lm" and not m["cls"]), None)
    if "(((" in c["in"][0] or rng.random() < .4: inc = None
    if inc is not None:
        w = [x for x in w if x[0] not in ("KLanguageModel", "KLanguageModel_OOV", "WordPenalty")] + [["KLanguageModel", rng.randint(0, 8)], ["KLanguageModel_OOV", rng.randint(-8, 8)], ["WordPenalty", 0]]
    files["w"] = "# weights\n" + "".join("%s %s\n" % (n, repr(x / 8)) for n, x in w if x or n.startswith("KL") or n == "WordPenalty")
    base = dict(c, files=files, bin=bins, cfg=c["cfg"] + ["weights=w"])
    one = ["feature_function=" + f for f in ffs]
    two = None
    if len(ffs) > 1 and rng.random() < .5:
        k = rng.randint(1, len(ffs) - 1)
        two = lambda s: ["feature_function=" + f for f in ffs[:k]] + ["weights2=w"] + ["feature_function2=" + f for f in ffs[k:]] + ["intersection_strategy2=" + s]
    runs = []
    def run(st, pop, cfg, full): runs.append(dict(st=st, pop=pop, cfg=base["cfg"] + cfg, full=full))
    run("full", 0, one + ["intersection_strategy=full"], True)
    for s in ("cube_pruning", "fast_cube_pruning", "fast_cube_pruning_2"):
        pl = rng.choice([1, 1, 2, 3, 5])
        run(s, pl, one + ["intersection_strategy=" + s, "cubepruning_pop_limit=%d" % pl], False)
        run(s, 5000, one + ["intersection_strategy=" + s, "cubepruning_pop_limit=5000"], True)
    if two:
        run("full+full", 0, two("full") + ["intersection_strategy=full"], True)
        s = rng.choice(["cube_pruning", "fast_cube_pruning", "fast_cube_pruning_2"])
        run(s + "+full", 5000, two("full") + ["intersection_strategy=" + s, "cubepruning_pop_limit=5000", "cubepruning_pop_limit2=1"], True)
        run("full+" + s, 1, two(s) + ["intersection_strategy=full", "cubepruning_pop_limit2=1"], False)
    if inc is not None:
        f = [x for x in ("lm0", "lm1") if x in files][sum(m["kind"] == "lm" for m in models[:inc])]
        b = next((x[1] for x in bins if x[0] == f and x[2] == "probing"), f)
        for pl in (rng.choice([1, 2, 5]), 5000):
            runs.append(dict(st="incremental", pop=pl, lm=inc + 1, cfg=base["cfg"] + ["incremental_search=" + b, "cubepruning_pop_limit=%d" % pl], full=pl == 5000, want="O"))
    return base, models, w, runs

def result(q, m):
    x = m["res"][0]
    if q["st"] != "incremental": return dict(q, ok=x["ok"], F=x.get("F", {}))
    words, _, sc = x["out"].strip().rpartition("|||")
    try: sc = round(float(sc) * 8000)
    except ValueError: words, sc = x["out"], 0
    return dict(q, words=words.split(), score=sc)

def counts(F):
    c = [0] * F["n"]
    for v in range(F["n"]):
        for k in F["in"][v]:
            p = 1
            for t in F["E"][k - 1]["t"]: p *= c[t]
            c[v] += p
    return c[-1]

def corrupt(rng, recs):
    out = []
    good = [r for r in recs if "runs" in r and len(r["runs"]) and "F" in r["runs"][0] and len(r["runs"][0]["F"]["E"]) > 4]
    for r in rng.sample(good, min(4, len(good))):
        a = copy.deepcopy(r)
        for e in a["runs"][0]["F"]["E"]:
            x = [f for f in e["fs"] if f[0] != "WordPenalty"]
            if x: x[0][1] += 125; break
        else: continue
        out.append(a)
        b = copy.deepcopy(r); F = b["runs"][0]["F"]
        if len(F["in"][-1]) > 1: F["in"][-1].pop()
        else: b["runs"][0]["ok"] = 0
        out.append(b)
        if r["runs"][-1]["st"] == "incremental":
            d = copy.deepcopy(r); d["runs"][-1]["score"] += 4000; out.append(d)
    return out

def check(ck):
    exe = targets.get("decoder")["decoder"]
    rng = ck.rng
    ck.model_check("RescoreMC", "SPECIFICATION Spec\nCONSTANTS Limits = {1, 2, 3, 100} Rules = {1, 2, 3} Deep = %s\nINVARIANT Result\nINVARIANT OncePop\nINVARIANT NoLoss\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if ck.thorough else "FALSE"))
    n = 2400 if ck.thorough else 450
    def run(cs, limit=None):
        d = tempfile.mkdtemp(dir=ck.work)
        base = vlib.run_harness([exe, d], [c[0] for c in cs])
        keep, jobs = [], []
        for c, b in zip(cs, base):
            if "crash" in b: keep.append((c, dict(crash=b["crash"]), 0)); continue
            x = b["res"][0]
            if x["ok"] != 1 or (limit and counts(x["F"]) > limit): continue
            keep.append((c, x["F"], len(c[3])))
            jobs += [dict(c[0], cfg=q["cfg"], want=q.get("want", "F")) for q in c[3]]
        rs = vlib.run_harness([exe, d], jobs)
        out, at = [], 0
        for c, b, k in keep:
            mine = rs[at:at + k]; at += k
            rec = dict(files=c[0]["files"], bin=c[0]["bin"], inp=c[0]["in"], cfg=c[0]["cfg"], models=c[1], w=c[2])
            bad = next((m for m in mine if "crash" in m), None) or (b if "crash" in b else None)
            if bad: rec.update(crash=bad["crash"], runs=c[3]); out.append(rec); continue
            rec.update(base=b, runs=[result(q, m) for q, m in zip(c[3], mine)])
            out.append(rec)
        return out
    recs = run([case(rng, ck.thorough and i % 3 == 0) for i in range(n)], 250 if ck.thorough else 80)
    ok = [r for r in recs if "crash" not in r]
    ck.cov["forests"] = len(ok); ck.cov["rescorings"] = sum(len(r["runs"]) for r in ok)
    ck.cov["derivations_before"] = sum(counts(r["base"]) for r in ok)
    ck.cov["recombinations"] = sum(r["runs"][0]["F"]["n"] < counts(r["base"]) for r in ok if r["runs"][0]["ok"] == 1)
    if ok: ck.sample({k: ok[0][k] for k in ("files", "cfg", "inp", "models")})
    def confirm(rec):
        runs = [{k: q[k] for k in ("st", "pop", "cfg", "full", "lm", "want") if k in q} for q in rec["runs"]]
        return run([(dict(files=rec["files"], bin=rec["bin"], cfg=rec["cfg"], want="F", lax=1, **{"in": rec["inp"]}), rec["models"], rec["w"], runs)])[0]
    ck.validate("RescoreTrace", recs, CFG, confirm=confirm, corrupt=corrupt)
    if len(recs) * 4 < n and not ck.violations: raise vlib.CheckError("only %d of %d inputs usable" % (len(recs), n))

if __name__ == "__main__":
    vlib.main("C06", check)

#!/usr/bin/env python3
"""C05: constraining to a reference and reading alignments, against spec/Constrain.tla"""
import os, sys, copy, tempfile, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, scfg
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"

def counts(F):
    c = [0] * F["n"]
    for v in range(F["n"]):
        for k in F["in"][v]:
            p = 1
            for t in F["E"][k - 1]["t"]: p *= c[t]
            c[v] += p
    return c

def sample(rng, F, v):
    e = F["E"][rng.choice(F["in"][v]) - 1]
    out = []
    for x in e["e"]:
        if re.fullmatch(r"\[\d\]", x): out += sample(rng, F, e["t"][int(x[1:-1]) - 1])
        else: out.append(x)
    return out

def reference(rng, F):
    """text and lattice of a reference, usually reachable"""
    y = sample(rng, F, F["n"] - 1)
    kind = rng.random()
    if rng.random() < .25 and y:
        y = list(y); k = rng.randrange(len(y))
        op = rng.random()
        if op < .4: y[k] = rng.choice("xyz")
        elif op < .7: y.insert(k, rng.choice("xyz"))
        elif len(y) > 1: del y[k]
    if kind < .5: return " ".join(y), [[dict(w=w, f=[], d=1)] for w in y]
    arcs = [[(w, 1)] for w in y]
    if kind < .65:                            # one arc per node, with empty words or jumps
        for _ in range(rng.randint(1, 2)):
            k = rng.randint(0, len(arcs))
            if rng.random() < .6: arcs.insert(k, [("*EPS*", 1)])
            elif k < len(arcs): arcs.insert(k + 1, [(rng.choice("xyz"), 1)]); arcs[k] = [(arcs[k][0][0], 2)]
    else:
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(len(arcs)); r = rng.random()
            if r < .15: arcs[k].append(("*EPS*", rng.choice([1, 1, 2])))
            elif r < .3:
                arcs.insert(k, [("*EPS*", 1), (rng.choice("xyz"), rng.choice([1, 2]))])
            else: arcs[k].append((rng.choice("xyz"), rng.choice([1, 1, 2, 3])))
        if rng.random() < .4:                 # another yield of the forest beside the first
            z = sample(rng, F, F["n"] - 1); n = len(arcs)
            for k, w in enumerate(z[:n]): arcs[k].append((w, 1 if k + 1 < min(len(z), n) else n - k))
    n = len(arcs)
    L, t = [], "("
    for i, as_ in enumerate(arcs):
        seen, row = set(), []
        t += "("
        for w, d in as_:
            d = min(d, n - i)
            if (w, d) in seen: continue
            seen.add((w, d))
            f = {rng.choice(["A", "Rf"]): scfg.val(rng)} if rng.random() < .2 else {}
            row.append(dict(w=w, f=[[k, scfg.v1000(v)] for k, v in f.items()], d=d))
            t += "('%s',{%s},%d)," % (w, ",".join("'%s':%s" % (k, scfg.fmt(v)) for k, v in f.items()), d)
        t += "),"; L.append(row)
    return t + ")", L

def plain(L): return all(len(a) == 1 and a[0]["d"] == 1 and a[0]["w"] != "*EPS*" for a in L)

def corrupt(rng, recs):
    out = []
    good = [r for r in recs if "res" in r and any(x.get("al") == 1 for x in r["res"])]
    for r in rng.sample(good, min(4, len(good))):
        k = next(i for i, x in enumerate(r["res"]) if x.get("al") == 1)
        a = copy.deepcopy(r); a["res"][k]["al"] = 0; out.append(a)
        b = copy.deepcopy(r); A = b["res"][k]["AF"]
        e = next(e for e in A["E"] if "par" in e); e["fs"] = [["A", 77]] ; out.append(b)
        x = r["res"][k]
        if x["mode"] != "none" and x["links"] and x["links"][0]:
            c = copy.deepcopy(r); c["res"][k]["links"][0] = [[9, 9]]; out.append(c)
    return out

def check(ck):
    exe = targets.get("decoder")["decoder"]
    rng = ck.rng
    ck.model_check("ConstrainMC", "SPECIFICATION Spec\nINVARIANT Same\nCHECK_DEADLOCK FALSE\n")
    n = 25000 if ck.thorough else 700
    first = [scfg.make(rng, plat=rng.choice([.5, .5, 0])) for _ in range(n)]
    scratch = tempfile.mkdtemp(dir=ck.work)
    pre = vlib.run_harness([exe, scratch], [c for c, _ in first])
    cases = []
    for (c, m), r in zip(first, pre):
        if "res" not in r: continue
        ins, refs = [], []
        for inp, lat, sent, x in zip(c["in"], m["lat"], m["sent"], r["res"]):
            if x["ok"] != 1: continue
            F = x["F"]
            keys = [repr((e["h"], e["t"], e["lhs"], e["f"], e["e"], e["fs"])) for e in F["E"]]
            if len(set(keys)) < len(keys) or sum(counts(F)) > 150: continue
            if any(not e["e"] for e in F["E"]): continue
            t, L = reference(rng, F)
            if not L or len(L) > 8: continue
            if "<seg" in inp:
                inp = re.sub(r"\s*</seg>", " ||| " + t + " </seg>", inp)
            else: inp = inp + " ||| " + t
            ins.append(inp); refs.append((lat, L))
        if not ins: continue
        cfg = list(c["cfg"]); files = dict(c["files"])
        mode, k, w = "none", 0, []
        if rng.random() < .8:
            cfg.append("aligner=1")
            mode = rng.choice(["map", "kbest"])
            if mode == "kbest" or not all(plain(a) and plain(b) for a, b in refs): cfg.append("aligner_use_viterbi=1"); mode = "kbest"
            if mode == "kbest":
                k = rng.choice([0, 1, 2, 3, 7])
                if k: cfg.append("k_best=%d" % k)
                w = [[nm, rng.randint(-2, 2)] for nm in scfg.FE + ["Glue", "LatticeCost", "Rf", "PassThrough", "LatticeCost_0", "Lx"] if rng.random() < .8]
                w = [x for x in w if x[1]]
                if w: files["w"] = "# weights\n" + "".join("%s %d\n" % tuple(x) for x in w); cfg.append("weights=w")
        cases.append((dict(files=files, cfg=cfg, want="FAO", **{"in": ins}), dict(refs=refs, mode=mode, k=k or 1, w=w)))
    def run(cs):
        out = []
        for (c, m), r in zip(cs, vlib.run_harness([exe, tempfile.mkdtemp(dir=ck.work)], [c for c, _ in cs])):
            rec = dict(case=c, meta=m, w=m["w"], **{k: v for k, v in r.items() if k != "res"})
            if "res" in r:
                rec["res"] = []
                for x, (lat, L) in zip(r["res"], m["refs"]):
                    y = dict(ok=x["ok"], al=x["al"], L=L, k=m["k"], mode=m["mode"], links=[])
                    if x["ok"] == 1:
                        y["F"] = {k: x["F"][k] for k in ("n", "in")}
                        y["F"]["E"] = [{k: e[k] for k in ("h", "t", "lhs", "f", "e", "fs", "i", "j")} for e in x["F"]["E"]]
                    if x["al"] == 1:
                        y["AF"] = {k: x["AF"][k] for k in ("n", "in")}
                        y["AF"]["E"] = [{k: e[k] for k in ("h", "t", "f", "e", "fs", "i", "j", "pi", "pj", "par") if k in e} for e in x["AF"]["E"]]
                        for e in y["AF"]["E"]:
                            if "par" in e: e["par"] = {k: e["par"][k] for k in ("lhs", "f", "e")}
                        if y["mode"] == "map" and not (plain(lat) and plain(L)): y["mode"] = "kbest"; y["k"] = 1
                        lines = [s.split(" ||| ") for s in x["out"].split("\n")]
                        lines = [(s + [""])[:3] for s in lines if len(s) == 3 or (len(s) == 2 and s[1].endswith(" |||"))]
                        y["links"] = [[[int(a) for a in p.split("-")] for p in s[2].split()] for s in lines]
                    rec["res"].append(y)
            out.append(rec)
        return out
    recs = run(cases)
    tot = sum(len(m["refs"]) for _, m in cases); al = sum(x["al"] == 1 for r in recs if "res" in r for x in r["res"])
    ck.cov["references"] = tot; ck.cov["reachable"] = al
    for md in ("map", "kbest"): ck.cov["alignments_" + md] = sum(len(x["links"]) for r in recs if "res" in r for x in r["res"] if x["mode"] == md)
    ck.sample(next((r for r in recs if "res" in r), None))
    ck.validate("ConstrainTrace", recs, CFG, confirm=lambda rec: run([(rec["case"], rec["meta"])])[0], corrupt=corrupt)
    lexical(ck, exe)
    if al * 3 < tot and not ck.violations: raise vlib.CheckError("only %d of %d references reached" % (al, tot))

def lexical(ck, exe):
    """word-by-word models: their own intersection and alignment paths"""
    rng = ck.rng
    cases = []
    for _ in range(12000 if ck.thorough else 400):
        mode = rng.choice(["lex", "lex", "lex", "tag", "align"])
        sw, tw = ["a", "b", "c"][:rng.randint(1, 3)], ["x", "y", "z"][:rng.randint(1, 3)]
        src = [rng.choice(sw) for _ in range(rng.randint(1, 4))]
        ref = [rng.choice(tw + ["q"] * (rng.random() < .1)) for _ in range(len(src) if mode == "tag" and rng.random() < .8 else rng.randint(1, 4))]
        null, only = False, False
        files, cfg = {}, []
        show = rng.choice(["map", "kbest"])
        if mode == "lex":
            null, only = rng.random() < .5, rng.random() < .3
            rules = []
            for s in sw + ["<eps>"] * null:
                if rng.random() < .05: continue
                for t in tw:
                    for _ in range(rng.choice([0, 1, 1, 1, 2])): rules.append(dict(s=s, t=t, fs={**scfg.rand_feats(rng), "U%d" % len(rules): 1.0}))
            if not rules: continue
            files["g"] = "".join("%s ||| %s ||| %s\n" % (r["s"], r["t"], " ".join("%s=%s" % (k, scfg.fmt(v)) for k, v in r["fs"].items())) for r in rules)
            cfg = ["formalism=lextrans", "grammar=g"] + ["lextrans_use_null=1"] * null + ["lextrans_align_only=1"] * only
        elif mode == "tag":
            tags = rng.sample(["x", "y", "z", "q"], rng.randint(1, 4))
            files["t"] = " ".join(tags) + "\n"; cfg = ["formalism=tagger", "tagger_tagset=t"]
            rules = [dict(s=s, t=t, fs={}) for s in set(src) for t in tags]
        else:
            cfg = ["formalism=lexalign"]
            rules = [dict(s=s, t=t, fs={"Lx:%s_%s" % (s, t): 1.0}) for s in sorted(set(src)) for t in sorted(set(ref))]
        cfg.append("aligner=1"); k = 1; w = []
        if show == "kbest":
            cfg.append("aligner_use_viterbi=1"); k = rng.choice([1, 2, 5]); cfg.append("k_best=%d" % k)
            w = [[n, rng.randint(-2, 2)] for n in scfg.FE + [n for r in rules for n in r["fs"] if n[0] == "L"]]; w = [x for x in w if x[1]]
            if w: files["w"] = "# weights\n" + "".join("%s %d\n" % tuple(x) for x in w); cfg.append("weights=w")
        nd = 1
        for t in ref: nd *= max(1, sum(r["t"] == t and (r["s"] in src or r["s"] == "<eps>") for r in rules) * 2)
        if nd > 300 and show == "kbest": continue
        rl = [dict(s=r["s"], t=r["t"], fs=[[k, scfg.v1000(v)] for k, v in r["fs"].items() if v]) for r in rules]
        inp = " ".join(src) + " ||| " + " ".join(ref)
        cases.append((dict(files=files, cfg=cfg, want="FAO", **{"in": [inp]}), dict(mode=mode, src=src, ref=ref, rules=rl, null=null, only=only, show=show, k=k, w=w)))
    def run(cs):
        out = []
        for (c, m), r in zip(cs, vlib.run_harness([exe, tempfile.mkdtemp(dir=ck.work)], [c for c, _ in cs])):
            rec = dict(m, case=c)
            if "res" not in r: rec["crash"] = r.get("crash", "?")
            else:
                x = r["res"][0]
                rec.update(ok=x["ok"], al=x["al"])
                for nm in ("F", "AF"):
                    if nm in x: rec[nm] = dict(n=x[nm]["n"], E=[{k: e[k] for k in ("h", "t", "f", "e", "fs", "i", "pi")} for e in x[nm]["E"]], **{"in": x[nm]["in"]})
                if x["al"] == 1:
                    lines = [s.split(" ||| ") for s in x["out"].split("\n")]
                    lines = [(s + [""])[:3] for s in lines if len(s) == 3 or (len(s) == 2 and s[1].endswith(" |||"))]
                    rec["links"] = [[[int(a) for a in p.split("-")] for p in s[2].split()] for s in lines]
                    rec["shown"] = lines[0][0].split() if lines else []
                    rec["trg"] = lines[0][1].replace(" |||", "").split() if lines else []
            out.append(rec)
        return out
    recs = run(cases)
    ck.cov["lexical_aligned"] = sum(r.get("al") == 1 for r in recs)
    def corrupt(rng, recs):
        good = [r for r in recs if r.get("al") == 1 and r["links"] and r["links"][0]]
        for r in rng.sample(good, min(2, len(good))):
            a = copy.deepcopy(r); a["links"][0][0] = [7, 7]; yield a
            b = copy.deepcopy(r); b["al"] = 0; yield b
    ck.validate("LexAlignTrace", recs, CFG, confirm=lambda rec: run([(rec["case"], {k: rec[k] for k in ("mode", "src", "ref", "rules", "null", "only", "show", "k", "w")})])[0], corrupt=corrupt)

if __name__ == "__main__":
    vlib.main("C05", check)

"""Random synchronous grammars, lattices and sentences, in file form and in the form of spec/SCFG.tla."""
FE = ["A", "B", "Cc"]

def val(rng):
    return rng.choice([-16, -8, -4, -1, 1, 2, 4, 8, 12]) / 8

def v1000(x):
    r = round(x * 1000)
    assert abs(r - x * 1000) < 1e-6
    return r

def fmt(x):
    return repr(x) if x != int(x) else str(int(x))

def rand_feats(rng, pool=FE, p=.6):
    return {n: val(rng) for n in pool if rng.random() < p / 2 + .1}

def rule(lhs, f, e, fs, a=None):
    return dict(l=lhs, f=f, e=e, fs=[[k, v1000(v)] for k, v in fs.items() if v], _fs=fs, a=a)

def rule_text(r, style=0):
    n, f = 0, []
    for k, x in r["f"]:
        if k: n += 1; f.append("[%s,%d]" % (x, n))
        else: f.append(x)
    cats = [x for k, x in r["f"] if k]
    e = []
    for x in r["e"]:
        if x.startswith("["):
            e.append("[%s,%s]" % (cats[int(x[1:-1]) - 1], x[1:-1]) if style else x)
        else: e.append(x)
    t = "[%s] ||| %s ||| %s ||| %s" % (r["l"], " ".join(f), " ".join(e), " ".join("%s=%s" % (k, fmt(v)) for k, v in r["_fs"].items()))
    if r.get("a"): t += " ||| " + " ".join("%d-%d" % tuple(p) for p in r["a"])
    return t

def rand_rule(rng, lhs_pool, rhs_pool, words, tgt, maxf=4, maxnt=2, order=None, unary_ok=True, align=False):
    """order: category -> rank; a unary rule may only rewrite a lower-ranked category (acyclic)"""
    while True:
        lhs = rng.choice(lhs_pool)
        n = rng.choice([1, 1, 2, 2, 3, 3, 4][:maxf + 3])
        n = min(n, maxf)
        f, nt = [], 0
        for _ in range(n):
            if nt < maxnt and rng.random() < .4 and rhs_pool: f.append([1, rng.choice(rhs_pool)]); nt += 1
            else: f.append([0, rng.choice(words)])
        if n == 1 and nt == 1:
            if not unary_ok or order is None or order[f[0][1]] >= order[lhs]: continue
        e = ["[%d]" % (k + 1) for k in range(nt)]
        rng.shuffle(e)
        for _ in range(rng.choice([0, 1, 1, 2])):
            e.insert(rng.randint(0, len(e)), rng.choice(tgt))
        if not e: e = [rng.choice(tgt)]
        a = None
        if align and rng.random() < .8:
            S = [i for i, x in enumerate(f) if not x[0]]; T = [i for i, x in enumerate(e) if not x.startswith("[")]
            if S and T: a = sorted({(rng.choice(S), rng.choice(T)) for _ in range(rng.randint(1, 3))})
        return rule(lhs, f, e, rand_feats(rng), [list(p) for p in a] if a else None)

def distinct(rules):
    seen, out = set(), []
    for r in rules:
        k = repr((r["l"], r["f"], r["e"]))
        if k not in seen: seen.add(k); out.append(r)
    return out

def grammar_text(rng, rules):
    return "".join(rule_text(r, rng.random() < .3) + "\n" for r in rules)

def strip(rules):
    return [{k: r[k] for k in ("l", "f", "e", "fs")} for r in rules]

def sentence(rng, words, n):
    ws = [rng.choice(words) for _ in range(n)]
    return " ".join(ws), [[dict(w=w, f=[], d=1)] for w in ws]

def lattice(rng, words, n, eps=.2, feats=.4):
    L = []
    for i in range(n):
        arcs, seen = [], set()
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            w = "*EPS*" if rng.random() < eps else rng.choice(words)
            d = rng.choice([1, 1, 1, 2, 3])
            if i + d > n: d = n - i
            if (w, d) in seen: continue
            seen.add((w, d))
            f = {}
            if rng.random() < feats:
                f = {rng.choice(["A", "LatticeCost", "Lx"]): val(rng)} if rng.random() < .5 else {"LatticeCost_0": val(rng)}
            arcs.append(dict(w=w, f=[[k, v1000(v)] for k, v in f.items()], d=d, _f=f))
        L.append(arcs)
    t = "("
    for arcs in L:
        t += "("
        for a in arcs:
            f = a["_f"]
            t += "('%s',%s,%d)," % (a["w"], "{" + ",".join("'%s':%s" % (k, fmt(v)) for k, v in f.items()) + "}" if list(f) != ["LatticeCost_0"] else repr(float(f["LatticeCost_0"])), a["d"])
        t += "),"
    return t + ")", [[{k: a[k] for k in ("w", "f", "d")} for a in arcs] for arcs in L]

def make(rng, big=False, plat=.5):
    goal = rng.choice(["S", "S", "S", "TOP"]); nt = rng.choice(["X", "X", "X", "Z0"])
    other = ["Y", "V"]
    glue, pas = rng.random() < .7, rng.random() < .4
    cats = [nt] + rng.sample(other, rng.randint(0, 2))
    words = ["a", "b", "c"][:rng.choice([1, 2, 2, 3])]
    tgt = ["x", "y", "z"]
    order = {c: k for k, c in enumerate(rng.sample(cats, len(cats)))}
    order[goal] = 99
    lhs, rhs = list(cats), list(cats)
    if not glue or rng.random() < .2: lhs.append(goal)
    if not glue: rhs = rhs + [goal] * (rng.random() < .5)
    def gram(k):
        rs = [rand_rule(rng, lhs, rhs, words, tgt, order=order, maxnt=rng.choice([1, 2, 2, 3])) for _ in range(k)]
        return distinct([r for r in rs if not (len(r["f"]) == 1 and r["f"][0] == [1, goal])])
    base = gram(rng.randint(1, 9 if big else 7))
    if rng.random() < .7: base = distinct(base + [rule(nt, [[0, w]], [rng.choice(tgt)], rand_feats(rng)) for w in words])
    tern = rng.random() < .25               # rules with three or four variables, in every target order
    if tern:
        base = base[:3]
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice([3, 3, 3, 4])
            f = [[1, rng.choice([nt, nt] + cats)] for _ in range(k)]; e = ["[%d]" % (j + 1) for j in range(k)]
            rng.shuffle(e)
            if rng.random() < .3: f.insert(rng.randint(0, k), [0, rng.choice(words)])
            if rng.random() < .4: e.insert(rng.randint(0, k), rng.choice(tgt))
            base.append(rule(nt, f, e, rand_feats(rng)))
        base += [rule(c, [[0, w]], [rng.choice(tgt)], rand_feats(rng)) for c in cats for w in words if c == nt or rng.random() < .6]
        base = distinct(base)
    if not glue and rng.random() < .8: base = distinct(base + [rule(goal, [[1, nt]], ["[1]"], {})])
    if rng.random() < .3 and base:          # the same source side again, another target or left-hand side
        r = rng.choice(base)
        base = distinct(base + [rule(r["l"], r["f"], r["e"] + ["w"], rand_feats(rng))])
    files = {"g0": grammar_text(rng, base)}
    limit = rng.choice([10, 10, 10, 4, 3] if tern else [1, 2, 3, 4, 10, 10, 10, 15])
    cfg = ["formalism=scfg", "grammar=g0", "scfg_max_span_limit=%d" % limit]
    G = [dict(kind="text", max=limit, rules=strip(base))]
    if rng.random() < .2:
        g1 = gram(rng.randint(1, 3)); files["g1"] = grammar_text(rng, g1); cfg.append("grammar=g1")
        G.append(dict(kind="text", max=limit, rules=strip(g1)))
    if rng.random() < .15:
        ge = [rule(goal, [[1, goal], [0, rng.choice(words)], [1, nt]], ["[2]", "[1]"], {"G": 1.0}), rule(goal, [[1, c]], ["[1]"], {"G": .5}) if (c := rng.choice(cats)) != nt else rule(goal, [[1, goal], [1, nt]], ["[2]", "[1]"], {"G": .5})]
        files["ge"] = grammar_text(rng, ge); cfg.append("scfg_extra_glue_grammar=ge")
        G.append(dict(kind="glue", max=0, rules=strip(ge)))
    if not glue: cfg.append("scfg_no_hiero_glue_grammar=1")
    if pas: cfg.append("add_pass_through_rules=1")
    if goal != "S" or rng.random() < .1: cfg.append("goal=" + goal)
    if nt != "X" or rng.random() < .1: cfg.append("scfg_default_nt=" + nt)
    ins, lats, sent = [], [], []
    for k in range(rng.choice([1, 1, 2, 3])):
        if rng.random() >= plat: t, L = sentence(rng, words + ["u"] * (rng.random() < .2), rng.randint(3 if tern else 1, 7 if big else 5))
        else: t, L = lattice(rng, words + ["u"] * (rng.random() < .2), rng.randint(3 if tern else 1, 5 if big else 4))
        s = []
        if rng.random() < .25:
            tag = ""
            for q in range(rng.choice([1, 1, 2])):
                gs = gram(rng.randint(1, 3)); fn = "s%d_%d" % (k, q)
                files[fn] = grammar_text(rng, gs); s.append(dict(kind="text", max=limit, rules=strip(gs)))
                tag += ' grammar%s="%s"' % (str(q) if q else "", fn)
            t = '<seg id="%d"%s> %s </seg>' % (k, tag, t)
        ins.append(t); lats.append(L); sent.append(s)
    return dict(files=files, cfg=cfg, want="F", **{"in": ins}), dict(G=G, sent=sent, glue=glue, **{"pass": pas}, goal=goal, nt=nt, lat=lats)


"""Random lattice files (PLF)."""

def lattice(rng, paths_max=400):
    n = rng.randint(1, 5)
    L = []
    for i in range(n):
        arcs = []
        for _ in range(rng.randint(1, 3)):
            w = "".join(rng.choice("ab'\\,()é {}:.09-") for _ in range(rng.randint(1, 4)))
            if rng.random() < .2: w = "*EPS*"
            f = {}
            if rng.random() < .5:
                style = "dense"
                for k in range(rng.randint(1, 3)): f["LatticeCost_%d" % k] = rng.randint(-40, 40) / 8
            else:
                style = "dict"
                for nm in rng.sample(["a", "LatticeCost_0", "LatticeCost", "x'y", "b\\c", "p,q", "r:s", "z}"], rng.randint(0, 3)): f[nm] = rng.randint(-9, 800) / 8
            arcs.append((w, f, style, rng.randint(1, n - i)))
        if not any(a[3] == 1 for a in arcs) and rng.random() < .7: arcs[0] = arcs[0][:3] + (1,)
        L.append(arcs)
    # last node must be reachable in the file (the reader requires it)
    if all(i + a[3] < n for i, arcs in enumerate(L) for a in arcs): L[-1][0] = L[-1][0][:3] + (1,)
    esc = lambda s: s.replace("\\", "\\\\").replace("'", "\\'")
    sp = lambda: " " * rng.choice([0, 0, 0, 1, 2])
    out = "("
    for i, arcs in enumerate(L):
        out += "("
        for j, (w, f, style, d) in enumerate(arcs):
            out += "('" + esc(w) + "'" + sp() + "," + sp()
            if style == "dense": out += "".join("%s%s,%s" % (repr(v) if v != int(v) or rng.random() < .5 else str(int(v)), sp(), sp()) for v in f.values())
            else: out += "{" + ", ".join("'" + esc(k) + "'" + sp() + ":" + sp() + repr(v) for k, v in f.items()) + "}" + sp() + "," + sp()
            out += str(d) + ")" + ("," if j + 1 < len(arcs) or rng.random() < .5 else "") + (sp() if j + 1 < len(arcs) else "")
        out += ")" + ("," if i + 1 < len(L) or rng.random() < .5 else "") + (sp() if i + 1 < len(L) else "")
    return list((out + ")").encode()), [len(a) for a in L]


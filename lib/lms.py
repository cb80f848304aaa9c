"""Random n-gram models for the language-model checks."""
NAMES0 = ["<unk>", "<s>", "</s>"]
POOL = ["a", "b", "la", "der", "x1", "été", "犬", "-1", "0.5", "\\data\\x", "UNK", "|||", "a,b", "ngram", "Der", "1-grams", "q", "zz", "\u0160", "&amp;"]

def rand_model(rng, N=None, closed=None, big=False, size=None, ragged=True):
    """[g, p, b] n-grams in eighths; contexts are always there, newer parts may be missing unless closed"""
    N = N or rng.choice([2, 3, 3, 4, 4, 5, 6])
    nv = size or rng.choice([1, 2, 3, 4, 6])
    K = list(range(3, 3 + nv))
    G = {1: set([(1,), (2,)] + [(k,) for k in K])}
    hasunk = rng.random() < .6
    if hasunk: G[1].add((0,))
    ext = [w for w in [0] * hasunk + [2] + K]
    fan = rng.choice([.5, 1, 1.5, 2, 3]); lim = rng.choice([6, 15, 30, 60] if not big else [10, 40, 120])
    for n in range(2, N + 1):
        prev = [g for g in G[n - 1] if g[-1] != 2]
        G[n] = set()
        want = min(lim, max(1, int(len(prev) * fan)))
        for _ in range(want * 2):
            if len(G[n]) >= want or not prev: break
            G[n].add(rng.choice(prev) + (rng.choice(ext),))
    if closed is None: closed = rng.random() < .7
    for n in range(N, 2, -1):       # both parts of an n-gram are shorter: one pass down is enough
        for g in list(G[n]):
            if closed: G[n - 1].add(g[1:])
            G[n - 1].add(g[:-1])
    ctx = set(g[:-1] for n in range(2, N + 1) for g in G[n])
    zero = rng.choice([0, .3, .6, 1])
    F = []
    for n in range(1, N + 1):
        gs = sorted(G[n])
        if rng.random() < .5: rng.shuffle(gs)
        for g in gs:
            p = -rng.randint(0 if n > 1 and rng.random() < .1 else 1, 40)
            if g == (1,): p = rng.choice([-99 * 8, -99 * 8, -3])
            b = 0 if n == N or g[-1] == 2 or (not ragged and g not in ctx) or rng.random() < zero else -rng.randint(1, 24) if not closed or rng.random() < .85 else rng.randint(1, 8)     # a filled-in probability stays one
            F.append({"g": list(g), "p": p, "b": b})
    return N, F, hasunk

def is_ragged(F):
    """some n-gram has a back-off weight although nothing continues it"""
    ctx = set(tuple(f["g"][:-1]) for f in F)
    return any(f["b"] and tuple(f["g"]) not in ctx for f in F)

def names(rng, F):
    m = max(f["g"][0] for f in F if len(f["g"]) == 1)
    pool = list(POOL); rng.shuffle(pool)
    v = NAMES0 + pool[: m - 2]
    if rng.random() < .1: v[0] = "<unk>"
    return v + rng.sample(pool[m - 2:], 2)      # and two words the model does not know

def num(rng, x):
    """a value in eighths, exactly, in one of the ways programs write it"""
    s = "%.3f" % (x / 8.0)
    k = rng.random()
    if k < .3: s = s.rstrip("0").rstrip(".")
    elif k < .35: s = "%.7e" % (x / 8.0)
    if s in ("-0", ""): s = "0"
    return s

def arpa(rng, N, F, vocab, unk="<unk>"):
    out = [""] * rng.choice([0, 0, 1, 2]) + ["\\data\\"]
    for n in range(1, N + 1): out.append("ngram %d=%d" % (n, sum(1 for f in F if len(f["g"]) == n)))
    out.append("")
    zero = rng.choice(["omit", "write", "mix", "neg"])
    for n in range(1, N + 1):
        out.append("\\%d-grams:" % n)
        for f in F:
            if len(f["g"]) != n: continue
            s = num(rng, f["p"]) + "\t" + " ".join(unk if w == 0 else vocab[w] for w in f["g"])
            if n < N and (f["b"] or zero == "write" or (zero == "mix" and rng.random() < .5)): s += "\t" + num(rng, f["b"])
            elif n < N and zero == "neg": s += "\t-0"
            out.append(s)
        out.append("")
        if rng.random() < .1: out.append("")
    out.append("\\end\\")
    return "\n".join(out) + "\n"

def rand_string(rng, F, hi=9, oov=True):
    """strings that often follow n-grams of the model"""
    words = [f["g"][0] for f in F if len(f["g"]) == 1 and f["g"][0] not in (0, 1)]
    top = max(words)
    s = []
    n = rng.randint(0, hi)
    while len(s) < n:
        if rng.random() < .6:
            g = rng.choice(F)["g"]; s += [w for w in g if w != 1 and (oov or w)]
        else: s.append(rng.choice(words + ([0, top + 1, top + 2] if oov and rng.random() < .4 else [])))
    return s[:n]

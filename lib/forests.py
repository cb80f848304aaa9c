"""Random and exhaustive forests for the forest checks (C02, C03, C04, C07)."""
import itertools

def nderiv(g):
    cnt = [0] * g["n"]
    for v in order(g):
        for e in g["E"]:
            if e["h"] == v:
                c = 1
                for t in e["t"]: c *= cnt[t]
                cnt[v] += c
    return cnt

def order(g):
    done, left = [], set(range(g["n"]))
    while left:
        r = [v for v in sorted(left) if all(t in done for e in g["E"] if e["h"] == v for t in e["t"])]
        if not r: raise ValueError("cycle")
        done += r; left -= set(r)
    return done

def rand_forest(rng, n=None, nf=3, maxd=120, vocab=2, dup=0.25, arity=3, fmax=3, words=2, orphan=0.15, p=4):
    """nodes in topological order; every node has an incoming edge."""
    while True:
        N = n or rng.randint(1, 5)
        E = []
        used = set()
        for v in range(N):
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                a = 0 if v == 0 else rng.choice([0, 1, 1, 2, 2, arity])
                if v == N - 1 and N > 1 and a == 0 and rng.random() < .8: a = 1
                tails = []
                for _ in range(a):
                    if tails and rng.random() < dup: tails.append(rng.choice(tails))
                    elif rng.random() < .5: tails.append(v - 1)
                    else: tails.append(rng.randrange(v))
                used |= set(tails)
                e = [-k for k in range(a)]
                rng.shuffle(e)
                for _ in range(rng.randint(0 if a else 1, words)):
                    e.insert(rng.randint(0, len(e)), rng.randint(1, vocab))
                E.append(dict(h=v, t=tails, e=e, f=[rng.randint(-fmax, fmax) if rng.random() < .6 else 0 for _ in range(nf)],
                              p=rng.randint(1, p)))
        if rng.random() < .3 and E:      # parallel duplicate edge
            E.append(dict(rng.choice(E)))
        if rng.random() >= orphan and any(v not in used for v in range(N - 1)): continue
        if rng.random() < .5: rng.shuffle(E)
        g = dict(n=N, nf=nf, E=E)
        c = nderiv(g)
        if c[-1] == 0 or max(c) > maxd: continue
        return g

def maxderivs(g): return nderiv(g)[-1]

def sizes_ok(g, lim=100000):
    """total linear weight stays inside TLC's integers"""
    val = [0] * g["n"]
    for v in order(g):
        for e in g["E"]:
            if e["h"] == v:
                c = e["p"]
                for t in e["t"]: c *= val[t]
                val[v] += c
    return max(val) <= lim

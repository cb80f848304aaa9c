#!/usr/bin/env python3
"""C12: name tables and weight files against spec/Intern.tla"""
import os, sys, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"}
# names a weight file can hold; the first ones are easy to mistake for one another
GOOD = ["a", "A", "ab", "a_b", "a#", "WordPenalty", "LM", "Bias", "_PHW", "PHWf", "x" * 300, "1.5", "-0.1", "0x1p-3", "nan", "ü", "日本", "\xa0", "a:b", "a;b", "a,b", "a|b", "%20", "+", "a+b", "<bad0>", "<bad1>",
        "|||", "Lx:<eps>_%5F", "\"", "\\n", "'", "R:0", "e-5", "inf", "\x01", "\x7f", "PhraseModel_0", "1", "a\rb", "\rq", "v\x0bv", "f\x0cf"]
ODD = ["#c", "=", "a=b", "a b", "\t", " ", "a\tb", "", "\n", "||", "a ", "# ", " a", "a=", "=1", "\r", "||| ", " |||"]
NAMES = [x.encode("utf-8") for x in GOOD] + [x.encode("utf-8") for x in ODD] + [b"\xff\xfe", b"a\xff"]
NG = len(GOOD)
MANY = [("w%d" % i).encode() for i in range(2500)]
HX = lambda b: b.hex()
VALS = ["0", "-0.0", "1", "-1", "0.1", "-0.30000000000000004", "1e-300", "5e-324", "-1.7976931348623157e308", "3.141592653589793", "1e22", "123456789.123456789", "0.5", "2.2250738585072014e-308", "1e-5", "100000", "1234567", "inf", "-inf"]
def hx(v):
    x = float(v)
    if x == 0: return "-0x0p+0" if str(x)[0] == "-" else "0x0p+0"
    if x in (float("inf"), float("-inf")): return str(x)
    import math
    m, e = math.frexp(abs(x)); return cfmt(x)
_c = {}
def cfmt(x):
    """as printf %a"""
    import ctypes
    if x not in _c:
        b = ctypes.create_string_buffer(64); ctypes.CDLL(None).snprintf(b, 64, b"%a", ctypes.c_double(x)); _c[x] = b.value.decode()
    return _c[x]

def name_of(t): return NAMES[t - 1] if t <= len(NAMES) else MANY[t - len(NAMES) - 1]

def history(rng, n):
    """one case: processes with operations; the model (lists of tags) is followed only to stay legal"""
    good = rng.sample(range(1, NG + 1), rng.choice([1, 2, 4, 8, NG])); many = n <= 25 and rng.random() < .04
    anyn = good + [x for x in range(NG + 1, len(NAMES) + 1)]
    procs = []; files = []
    for p in range(rng.choice([1, 2, 2, 3])):
        ops = []; cnt = {"d": [], "t": [], "f": []}; fz = False
        def intern(d, t, f=False):
            if t not in cnt[d] and not f: cnt[d].append(t)
        def val(): return rng.choice(VALS[:-2] if rng.random() < .95 else VALS) if rng.random() < .7 else repr(rng.uniform(-10, 10) * 10 ** rng.randint(-12, 12))
        def entries():
            e = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
                t = rng.choice(good)
                e.append((t, val()))
            return e
        for _ in range(n):
            r = rng.random(); d = rng.choice("ddtf"); x = rng.randrange(3)
            if r < .28:
                t = rng.choice(good if d == "f" else anyn)
                if d == "t" and rng.random() < .2: t = rng.choice(good)
                f = (d == "d" and rng.random() < .2)
                ops.append(dict(o="conv", d=d, n=[t], fz=f or (d == "t" and rng.random() < .5)))
                intern(d, (t,), f or (d == "f" and fz))
            elif r < .40 and many:
                if d == "f" and fz: continue
                a = rng.randrange(2000)
                for k in range(a, a + rng.choice([5, 200, 500])): ops.append(dict(o="conv", d=d, n=[len(NAMES) + 1 + k], fz=False)); intern(d, (len(NAMES) + 1 + k,))
                for _ in range(6): ops.append(dict(o="name", d=d, i=rng.randint(0, len(cnt[d])))) if d != "d" or True else None
            elif r < .45:
                ops.append(dict(o="name", d=d, i=rng.randint(0, len(cnt[d]))))
            elif r < .48: ops.append(dict(o="max", d=d))
            elif r < .56:
                d = rng.choice("dt"); p_ = []
                at = rng.choice([0, 0, 1, 3]) if d == "t" else 0
                for _ in range(rng.choice([0, 1, 2, 3, 7])):
                    p_ += [rng.choice([0, -1]) for _ in range(rng.choice([0, 1, 1, 2]) if not p_ else rng.choice([1, 1, 2, 3]))] + [rng.choice(good)]
                p_ += [rng.choice([0, -1]) for _ in range(rng.choice([0, 0, 1, 2]))]
                raw = b"".join(name_of(y) if y > 0 else b" " if y == 0 else b"\t" for y in p_)
                if not raw: at = 0
                raw = b"~" * at + raw
                ops.append(dict(o="line", d=d, p=p_, at=at, raw=HX(raw), fz=False))
                for y in p_: 
                    if y > 0: intern(d, (y,))
            elif r < .59:
                p_ = [rng.choice(good) for _ in range(rng.randint(0, 5))]; ops.append(dict(o="words", d="t", p=p_, ns=[HX(name_of(y)) for y in p_], fz=False))
                for y in p_: intern("t", (y,))
            elif r < .63:
                v = [rng.choice([g for g in good if name_of(g) != b"|||"] or [1]) for _ in range(rng.choice([1, 2, 2, 3]))]; f = rng.random() < .2
                ops.append(dict(o="vec", d="d", n=v, fz=f)); intern("d", tuple(v), f)
            elif r < .66:
                c = [i for i, v in enumerate(cnt["d"]) if all(y <= NG and name_of(y) != b"|||" for y in v)]
                if c: ops.append(dict(o="asvec", d="d", i=rng.choice(c) + 1))
            elif r < .67: ops.append(dict(o="clear")); cnt["d"] = []
            elif r < .685: ops.append(dict(o="freeze")); fz = True
            elif r < .70: t = rng.randrange(1, len(NAMES) + 1); ops.append(dict(o="esc", n=[t], c=list(name_of(t))))
            elif r < .74:
                f = rng.choice(["a", "b.gz", "c"]); e = entries(); files.append(f); L = []
                for t, v in e:
                    while rng.random() < .15: L.append(rng.choice([b"", b"# a 5", b"#", b"#x=1"]))
                    sep = rng.choice([b" "] * 4 + [b"=", b"\t", b"  ", b"= ", b" =", b" = ", b"\t\t "[:1]])
                    L.append(name_of(t) + sep + v.encode() + (b"" if rng.random() < .8 else b" "))
                    if rng.random() < .05: L.append(b"#  ")
                raw = b"\n".join(L) + (b"\n" if L and rng.random() < .8 else b"")
                if L and raw.endswith(b"\n") and rng.random() < .2: raw += b"\n" * rng.randint(1, 3)
                ops.append(dict(o="file", f=f, raw=HX(raw), e=[[[t], hx(v)] for t, v in e]))
                for t, v in e: files.append(f)
                E.setdefault(id(procs), {})[f] = [t for t, v in e]
            elif r < .83:
                fs = E.get(id(procs), {})
                if not fs: continue
                f = rng.choice(sorted(fs)); o = dict(o="init", w=x, f=f, fl=rng.random() < .4)
                if not f.endswith(".gz") and rng.random() < .15: o["std"] = True
                ops.append(o)
                for t in fs[f]: intern("f", (t,), fz)
            elif r < .90:
                f = rng.choice(["a", "b.gz", "c"]); hide = rng.random() < .5
                ops.append(dict(o="write", w=x, f=f, hide=hide, extra=rng.random() < .4)); E.setdefault(id(procs), {})[f] = [t[0] for t in cnt["f"]]
            elif r < .92: ops.append(dict(o="getstr", w=x, hide=rng.random() < .5))
            elif r < .94:
                e = entries(); raw = b" ".join(name_of(t) + b"=" + v.encode() for t, v in e)
                ops.append(dict(o="update", w=x, raw=HX(raw), e=[[[t], hx(v)] for t, v in e]))
                for t, v in e: intern("f", (t,), fz)
            elif r < .98:
                if not cnt["f"]: continue
                v = val(); ops.append(dict(o="set", w=x, i=rng.randint(1, len(cnt["f"])), v=v))
            elif r < .99: ops.append(dict(o="copy", w=x, **{"from": rng.randrange(3)}))
            else: ops.append(dict(o="sparse", w=x))
        procs.append(ops)
    E.pop(id(procs), None)
    return dict(procs=procs)
E = {}

def to_case(c):
    P = []
    for ops in c["procs"]:
        Q = []
        for o in ops:
            q = {k: v for k, v in o.items() if k in ("o", "d", "fz", "i", "w", "f", "fl", "std", "hide", "extra", "v", "ns", "at", "from")}
            if "raw" in o: q["n"] = o["raw"]
            elif o["o"] == "vec": q["ns"] = [HX(name_of(t)) for t in o["n"]]
            elif "n" in o: q["n"] = HX(name_of(o["n"][0]))
            Q.append(q)
        P.append(Q)
    return dict(procs=P)

TAG = {b: i + 1 for i, b in enumerate(NAMES + MANY)}
def tag(h, parts=False):
    b = bytes.fromhex(h)
    if b in TAG: return [TAG[b]]
    return [TAG.get(x, -1) for x in b.split(b" ||| ")]
def pairs(h, sep, line):
    out = []
    for x in bytes.fromhex(h).split(line):
        if not x or (line == b"\n" and x.startswith(b"#")): continue
        n, _, v = x.rpartition(sep)
        try: out.append([tag(n.hex()), hx(v.decode())])
        except ValueError: out.append([[-1], "?"])
    return out
def record(c, r):
    if "crash" in r: return dict(crash=r["crash"], procs=c["procs"])
    P = []
    for ops, res in zip(c["procs"], r["procs"]):
        if res == "died": return dict(crash="a process died", procs=c["procs"])
        Q = []
        for o, a in zip(ops, res):
            q = dict(d="", fz=False, w=0, hide=False); q.update({k: v for k, v in o.items() if k not in ("raw", "ns", "at")}); q["now"] = a["w"]
            k = o["o"]
            if k == "set": q["v"] = hx(o["v"])
            if k == "name": q["i"] = a["i"]; q["r"] = [0] if a["i"] == 0 and bytes.fromhex(a["r"]) == b"<bad0>" else tag(a["r"])
            elif k == "asvec": q["r"] = [TAG.get(bytes.fromhex(x), -1) for x in a["r"]]
            elif k == "esc": q["r"] = list(bytes.fromhex(a["r"]))
            elif k == "init": 
                q.pop("fl", None)
                if o.get("fl"): q["fl"] = [tag(x) for x in a["fl"]]
            elif k == "write": q["r"] = pairs(a["r"], b" ", b"\n")
            elif k == "getstr": q["r"] = pairs(a["r"], b"=", b" ")
            elif k == "sparse": q["r"] = [[i, v] for i, v in a["r"]]
            elif "r" in a: q["r"] = a["r"]
            if k in ("line", "words") and o["d"] == "t": q["s"] = [TAG.get(x, -1) for x in bytes.fromhex(a["s"]).split(b" ") if x]
            Q.append(q)
        P.append(Q)
    return dict(procs=P)

def mc(ck, name, names, steps, v="", want=True):
    cfg = 'INIT Init\nNEXT Next\nCONSTANTS\nNames=%d\nSteps=%d\nVariant="%s"\nINVARIANT TableOk\nINVARIANT Stable\nPROPERTY Refines\nPROPERTY Transfers\nPROPERTY ReadIsRead\nCHECK_DEADLOCK FALSE\n' % (names, steps, v)
    if want: ck.model_check("InternMC", cfg, name=name)
    elif ck.tlc("InternMC", cfg).ok: raise vlib.CheckError("InternMC accepts the wrong design " + v)

def go(ck):
    exe = targets.get("intern")["intern"]; rng = ck.rng
    mc(ck, "two-names", 2, 6)
    for v in ("front", "oldsize", "frozenadd", "shifted"): mc(ck, "", 2, 5, v, False)
    if ck.thorough: mc(ck, "two-names-deep", 2, 9); mc(ck, "three-names", 3, 7)
    cases = []
    gen = ck.generate("InternGen", "INIT Init\nNEXT Next\nCONSTANTS\nA=%d\nB=%d\nCHECK_DEADLOCK FALSE\n" % ((4, 2) if ck.thorough else (3, 2)), workers=1)
    for c in rng.sample(gen, min(len(gen), 20000 if ck.thorough else 4000)):
        known = []; ok = True; frozen = False
        for o in c["procs"][0]:
            if o["o"] == "freeze": frozen = True
            if o["o"] == "conv" and not frozen and o["n"] not in known: known.append(o["n"])
            if o["o"] == "set" and o["i"] > len(known): ok = False
        if not ok: continue
        for p in c["procs"]:
            for o in p:
                if o["o"] == "conv": o["n"] = [o["n"]]
        cases.append(c)
    ng = len(cases)
    for i in range(4000 if ck.thorough else 1200): cases.append(history(rng, rng.choice([4, 10, 25, 60] + ([150] if ck.thorough else []))))
    root = os.path.join(ck.work, "f"); os.makedirs(root, exist_ok=True)
    res = vlib.run_harness([exe, root], [to_case(c) for c in cases], case_timeout=30, env=ASAN)
    recs = [record(c, r) for c, r in zip(cases, res)]
    def confirm(r):
        i = [k for k, x in enumerate(recs) if x is r]
        return r if not i else record(cases[i[0]], vlib.run_harness([exe, root], [to_case(cases[i[0]])], env=ASAN)[0])
    ck.log("ran", len(recs), "histories")
    ck.cov["enumerated_histories"] = ng; ck.cov["operations"] = sum(len(p) for c in cases for p in c["procs"])
    import collections
    ck.cov["by_operation"] = dict(collections.Counter(o["o"] for c in cases for p in c["procs"] for o in p))
    ck.sample(recs[-1])
    def corrupt(rng, recs):
        n = 0
        for r in recs:
            if "crash" in r: continue
            for p, ops in enumerate(r["procs"]):
                for i, o in enumerate(ops):
                    if o["o"] in ("conv", "write", "line") and o.get("r") and n < 8 and rng.random() < .2:
                        b = copy.deepcopy(r); q = b["procs"][p][i]; n += 1
                        if o["o"] == "conv": q["r"] += 1
                        elif o["o"] == "write": q["r"].pop()
                        else: q["r"].reverse(); q["r"].append(1)
                        yield b
    ck.validate("InternTrace", recs, CFG, corrupt=corrupt, confirm=confirm)
    ck.assumptions += ["names written to weight files contain no blank, tab, line end or '=' and do not begin with '#' (the text format cannot hold them; the feature functions escape them)",
                       "the slot of feature 0 ('no feature') of a dense weight vector is not looked at", "weights are compared bit by bit; NaN is refused when reading"]

if __name__ == "__main__": vlib.main("C12", go)

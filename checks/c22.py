#!/usr/bin/env python3
"""C22: queues, chains of block workers, sorters and thread pools against spec/PCQueue.tla,
ChainMC.tla and ExtSort.tla, on the real code under a deterministic scheduler"""
import os, sys, copy, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"

def queue_case(rng):
    n = rng.choice([2, 2, 3, 3, 4, 5]); prog = []; v = 0
    style = rng.choice(["mixed", "split", "split"])
    for t in range(n):
        ops = []
        for _ in range(rng.randint(1, 3)):
            put = (t % 2 == 0) if style == "split" else rng.random() < .5
            v += 1
            ops.append(["p" if put else "c", v if put else rng.randrange(2), int(rng.random() < .12)])
        prog.append(ops)
    puts = sum(o[0] == "p" and not o[2] for p in prog for o in p); gets = sum(o[0] == "c" and not o[2] for p in prog for o in p)
    if rng.random() < .7:      # balance, so that everything finishes
        while puts < gets: v += 1; prog[rng.randrange(n)].append(["p", v, 0]); puts += 1
        while gets < puts and rng.random() < .8: prog[rng.randrange(n)].append(["c", 0, 0]); gets += 1
    return dict(kind="queue", k="queue", cap=rng.choice([1, 1, 2, 2, 3]), prog=prog, dfs=120, pre=rng.choice([1, 2, 2]), rnd=40, len=120, keep=60)

def pool_case(rng):
    return dict(kind="pool", k="pool", cap=rng.randint(1, 4), workers=rng.randint(1, 4), req=list(range(1, rng.randint(1, 9))), rnd=40, dfs=30, pre=1, len=150, keep=40)

def values(rng, n, es, keys=2000):
    return [1000 * rng.randrange(keys) + (rng.randrange(1000) if es >= 8 else 0) for _ in range(n)]

def geometry(rng, es):
    n = rng.choice([1, 2, 2, 3, 3, 4]); per = rng.choice([1, 1, 2, 2, 3, 4, 7])
    return dict(es=es, n=n, mem=n * per * es + rng.choice([0, 0, 1, es - 1, (n * es) - 1]))

def source(rng, es, hi=30, keys=2000, files=()):
    n = rng.choice([0, 1, 2, rng.randint(0, hi), rng.randint(0, hi)])
    v = values(rng, n, es, keys)
    if rng.random() < .5: return dict(k="src", ch=0, v=v)
    return dict(k="lsrc", ch=0, v=v, sz=[rng.choice([0, 1, 2, 3, 9]) for _ in range(rng.randint(0, n + 2))])

def middle(rng, ch):
    return dict(k="add", ch=ch, c=rng.choice([0, 1, 7])) if rng.random() < .6 else (lambda m: dict(k="drop", ch=ch, m=m, r=rng.randrange(m)))(rng.choice([1, 2, 2, 3, 5]))

def chain_case(rng):
    nc = rng.choice([1, 1, 1, 2, 3])
    use_files = rng.random() < .6
    es0 = rng.choice([4, 8, 8, 9, 12, 20])
    es = [es0 if use_files else rng.choice([4, 8, 12, 17]) for _ in range(nc)]
    nf = 4 if use_files else 0
    chains = [geometry(rng, e) for e in es]
    rounds = []; written = set()
    for r in range(rng.choice([1, 1, 2, 3])):
        st = []; used = set(); trunc = []
        def free(fam):
            c = [f for f in range(nf) if f % 2 == fam and f not in used]
            return rng.choice(c) if c else None
        def begin(ch):
            opts = [("read", f) for f in written if f < nf and f not in used] + [("pread", f) for f in written if f < nf and f not in used] + [("fbread", f - 100) for f in written if f >= 100 and f not in used]
            if opts and rng.random() < .5:
                k, f = rng.choice(opts); used.add(f if k != "fbread" else f + 100); return dict(k=k, ch=ch, f=f)
            s = source(rng, es[ch]); s["ch"] = ch; return s
        fan = nc > 1 and rng.random() < .7
        live = [0]
        st.append(begin(0))
        for _ in range(rng.choice([0, 1, 2])): st.append(middle(rng, 0))
        if fan: st.append(dict(k="fan", ch=0)); live = list(range(nc))
        elif nc > 1:
            for c in range(1, nc):
                if rng.random() < .6: st.append(begin(c)); live.append(c)
        tails = []
        main = rng.random() < .4
        for c in live:
            for _ in range(rng.choice([0, 0, 1, 2])): tails.append(middle(rng, c))
            if use_files and rng.random() < .5:
                f = free(0)
                if f is not None: used.add(f); written.add(f); tails.append(dict(k="write", ch=c, f=f)); 
        order = {}
        rng.shuffle(live)
        st += tails; late = []
        for c in live:
            # a reader in the caller's thread starts when it is attached, before the blocks are
            # recycled: it is attached only where no empty blocks can come first
            hollow = any(x["k"] == "drop" or x["k"] == "lsrc" and 0 in x["sz"] + [len(x["v"])] for x in st) or chains[c]["n"] < 2
            if main and c == live[0] and not hollow: late = [dict(k="main", ch=c), dict(k="recycle", ch=c)]; continue
            e = rng.choice(["none", "recycle", "wrec", "pwrec", "fbsink"] if use_files else ["none", "recycle"])
            if e in ("wrec", "pwrec"):
                f = free(0 if e == "wrec" else 1)
                if f is None: continue
                used.add(f); written.add(f); st.append(dict(k=e, ch=c, f=f))
                if e == "pwrec" and rng.random() < .3 and f not in [x for x in trunc]: trunc.append(f)
            elif e == "fbsink":
                f = next((x for x in range(nf) if x + 100 not in used), None)
                if f is not None: used.add(f + 100); written.add(f + 100); st.append(dict(k="fbsink", ch=c, f=f))
            elif e == "recycle": st.append(dict(k="recycle", ch=c))
        if fan:      # chains that share a worker are completed before they are waited for
            done = {x["ch"] for x in st if x["k"] in ("recycle", "wrec", "pwrec", "fbsink")}
            st += [dict(k="recycle", ch=c) for c in live if c not in done | {x["ch"] for x in late}]
        st += late
        rounds.append(dict(st=st, release=rng.randrange(2), trunc=trunc))
    return dict(kind="chain", k="chain", files=nf, chains=chains, rounds=rounds, rnd=30, dfs=20, pre=1, len=rng.choice([100, 400, 1000]), keep=4)

def sort_case(rng):
    es = rng.choice([8, 8, 12, 20, 9]); comb = rng.randrange(2)
    keys = rng.choice([1, 3, 10, 40, 500])
    hi = rng.choice([5, 20, 60, 120])
    if comb: hi = 60
    def src():
        s = source(rng, es, hi, keys)
        if comb: s["v"] = [x - x % 1000 + rng.randrange(8) for x in s["v"]]
        return s
    buf = rng.choice([1, 1, 2, 3, 5]); B = buf * es + rng.choice([0, 0, 1, es - 1])
    total = rng.choice([4, 4, 5, 6, 9, 20]) * buf * es + rng.choice([0, 1, 5])
    pre = [src()] + [middle(rng, 0) for _ in range(rng.choice([0, 0, 1]))]
    mode = rng.choice(["lazy", "lazy", "need", "default", "steal"])
    c = dict(kind="sort", k="sort", comb=comb, pre=pre, buf=B, total=total, mode=mode, lazy=rng.choice([0, 0, 1, es, buf * es, 2 * buf * es, 3 * buf * es, 10 * es, 40 * es, 100000]),
             out=geometry(rng, es), post=[dict(k="add", c=rng.choice([0, 1])) for _ in range(rng.choice([0, 0, 1]))], read=1, rnd=12, dfs=3, pre_=0, len=600, keep=3)
    c["in"] = geometry(rng, es)
    if c["post"] and rng.random() < .5: c["read"] = 0
    return c

def record(c, o):
    r = dict(kind=c["kind"], end=o["end"])
    if "ev" not in o: return r
    if c["kind"] == "queue": r.update(ev=o["ev"], threads=len(c["prog"]), cap=c["cap"])
    elif c["kind"] == "pool": r.update(ev=o["ev"], workers=c["workers"], req=c["req"])
    elif c["kind"] == "chain":
        r.update(obs=o["obs"], files=o["files"], geom=o["geom"], es=[x["es"] for x in c["chains"]], mem=[x["mem"] for x in c["chains"]], nb=[x["n"] for x in c["chains"]], nf=c["files"], rounds=c["rounds"])
    else: r.update(obs=o["obs"], files=o["files"], geom=o["geom"], blocks=o["blocks"], mode=c["mode"], comb=c["comb"], pre=c["pre"], post=c["post"])
    return r

FULL = dict(queue="ev threads cap", pool="ev workers req", chain="obs files geom", sort="obs files geom blocks")
def models(ck):
    q = lambda cap, th, v: "INIT Init\nNEXT Next\nCONSTANTS\nCap=%d\nThreads=%d\nVariant=\"%s\"\nINVARIANT Refines\nINVARIANT Stuck\nINVARIANT Counts\nCHECK_DEADLOCK FALSE\n" % (cap, th, v)
    ch = lambda nb, sz, k, n, cap, d, v: ("SPECIFICATION Spec\nCONSTANTS\nNB=%d\nSize=%d\nK=%d\nN=%d\nCap=%d\nDrop=%d\nVariant=\"%s\"\n" % (nb, sz, k, n, cap, d, v)
         + "".join("INVARIANT %s\n" % i for i in "InOrder OnePlace NeverFull EndOnce AllSeen NothingLeft".split()) + "PROPERTY Finishes\nCHECK_DEADLOCK FALSE\n")
    so = lambda r, ln, z, s, v: "INIT Init\nNEXT Next\nCONSTANTS\nMaxRuns=%d\nMaxLen=%d\nMaxLazy=%d\nSeeds=%d\nVariant=\"%s\"\nINVARIANT NoBug\nINVARIANT Right\nCHECK_DEADLOCK FALSE\n" % (r, ln, z, s, v)
    ck.model_check("PCQueueMC", q(2, 4, "ok"), name="queue")
    ck.model_check("ChainMC", ch(2, 2, 4, 5, 2, 2, "early"), name="chain")
    ck.model_check("ExtSortMC", so(4, 2, 4, 2, "ok"), name="sort")
    bad = [("PCQueueMC", q(1, 4, "norepost")), ("PCQueueMC", q(2, 4, "postfirst")), ("PCQueueMC", q(2, 4, "nolock")), ("PCQueueMC", q(2, 4, "advance")),
           ("ChainMC", ch(2, 2, 4, 5, 2, 2, "swallow")), ("ChainMC", ch(2, 2, 4, 5, 2, 2, "twice")), ("ChainMC", ch(2, 2, 4, 9, 2, 2, "norecycle")), ("ChainMC", ch(2, 1, 4, 4, 1, 0, "ok")), ("ChainMC", ch(2, 2, 4, 5, 2, 2, "keep")),
           ("ExtSortMC", so(4, 2, 4, 2, "arity")), ("ExtSortMC", so(4, 2, 4, 2, "nocombine")), ("ExtSortMC", so(4, 2, 4, 2, "starve"))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for (m, cfg), r in zip(bad, ex.map(lambda b: ck.tlc(b[0], b[1], workers=2), bad)):
            if r.ok: raise vlib.CheckError("model %s accepts a wrong variant: %s" % (m, cfg))
    ck.cov["wrong_designs_rejected"] = len(bad)
    if ck.thorough:
        ck.model_check("PCQueueMC", q(1, 5, "ok"), name="queue-cap1"); ck.model_check("PCQueueMC", q(2, 5, "ok"), name="queue-5"); ck.model_check("PCQueueMC", q(3, 5, "ok"), name="queue-cap3")
        ck.model_check("ChainMC", ch(3, 2, 5, 7, 3, 3, "early"), name="chain-5"); ck.model_check("ChainMC", ch(4, 2, 5, 9, 4, 2, "ok"), name="chain-blocks4"); ck.model_check("ChainMC", ch(1, 3, 5, 7, 1, 2, "early"), name="chain-block1")
        ck.model_check("ExtSortMC", so(5, 3, 7, 2, "ok"), name="sort-deep")

def go(ck):
    exe = targets.get("pipes")["pipes"]
    rng = ck.rng
    models(ck)
    k = 4 if ck.thorough else 1
    cases = [queue_case(rng) for _ in range(160 * k)] + [pool_case(rng) for _ in range(50 * k)] + [chain_case(rng) for _ in range(450 * k)] + [sort_case(rng) for _ in range(600 * k)]
    for i, c in enumerate(cases):
        c.update(seed=i + 7 + 100000 * ck.seed, tmp=os.path.join(ck.work, "t"))
        if ck.thorough: c["rnd"] *= 3; c["dfs"] = c.get("dfs", 0) * 4
    order = list(range(len(cases))); rng.shuffle(order); cases = [cases[i] for i in order]
    res = vlib.run_harness([exe], cases, case_timeout=120)
    recs = []; back = []
    for c, o in zip(cases, res):
        if "crash" in o: recs.append(dict(o, kind=c["kind"])); back.append(c); continue
        ck.cov["schedules_" + c["kind"]] = ck.cov.get("schedules_" + c["kind"], 0) + o["runs"]
        ck.cov["longest_schedule"] = max(ck.cov.get("longest_schedule", 0), o["points"])
        for x in o["r"]:
            r = record(c, x)
            if len(r) == 2: r = dict(crash="%s: %s" % (r["kind"], r["end"]), case=c)
            recs.append(r)
    for kd in ("queue", "pool", "chain", "sort"): ck.cov["distinct_observations_" + kd] = sum(1 for r in recs if r.get("kind") == kd)
    ck.cov["queue_stuck_as_specified"] = sum(1 for r in recs if r.get("kind") == "queue" and r.get("end") == "deadlock")
    for kd in ("queue", "chain", "sort"): ck.sample(next(r for r in recs if r.get("kind") == kd))
    def corrupt(rng, recs):
        for r in recs:
            if r.get("kind") == "queue" and r["end"] == "ok" and len({e[2] for e in r["ev"] if e[1] == 3}) > 1:
                b = copy.deepcopy(r); e = [x for x in b["ev"] if x[1] == 3]
                e[0][2], e[-1][2] = 99, e[0][2]; yield b
                b = copy.deepcopy(r); b["end"] = "deadlock"; yield b; break
        for r in recs:
            if r.get("kind") == "chain" and any(len(o["in"]) > 2 and o["k"] == "add" for o in r.get("obs", [])):
                b = copy.deepcopy(r); o = next(o for o in b["obs"] if len(o["in"]) > 2 and o["k"] == "add"); o["in"][1] += 1000; yield b
                b = copy.deepcopy(r); next(o for o in b["obs"] if o["k"] == "add")["ends"] = 2; yield b; break
        for r in recs:
            if r.get("kind") == "sort" and r.get("mode") == "lazy" and r["obs"] and len(r["obs"][-1]["in"]) > 2:
                b = copy.deepcopy(r); b["obs"][-1]["in"].pop(); b["obs"][-1]["out"].pop(); yield b; break
    ck.validate("PipesTrace", recs, CFG, corrupt=corrupt)
    ck.assumptions += ["a stage poisons its output only while it holds a block (as the documentation of Link says)", "only the first stage of a chain ends it before its input has ended",
                       "scheduling points are the synchronisation calls, and the copies and record accesses made by the harness; memory is sequentially consistent"]

if __name__ == "__main__": vlib.main("C22", go)

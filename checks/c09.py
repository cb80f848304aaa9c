#!/usr/bin/env python3
"""C09: alignment tool against spec/Alignments.tla"""
import os, sys, subprocess, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vbuild, targets

CMDS = ["convert", "display", "invert", "union", "intersect", "grow-diag", "grow-diag-final", "grow-diag-final-and"]
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted RunBetween RunMaximal Verdict\nCHECK_DEADLOCK FALSE\n"

def fmt(links, rng, style):
    l = list(links)
    if style == 1: rng.shuffle(l)
    if style == 2 and l: l = l + [rng.choice(l)]
    s = " ".join("%d-%d" % tuple(p) for p in l)
    if style == 3: s = "a b ||| c d ||| " + s
    return s

def links_of(line):
    return [[int(x) for x in t.split("-")] for t in line.split()]

STREAMS = []
def run_stream(ck, exe, cmd, pairs, rng, style=None):
    sid = len(STREAMS)
    st = rng.randrange(1 << 30)
    STREAMS.append((cmd, pairs, st, style))
    recs = run_stream1(ck, exe, cmd, pairs, random.Random(st), style)
    for k, r in enumerate(recs): r["at"] = [sid, k]
    return recs

def run_stream1(ck, exe, cmd, pairs, rng, style=None):
    """One run of the tool over a stream of pairs -> one record per line (fmeasure: one record)."""
    one = cmd in ("convert", "display", "invert")
    f1 = os.path.join(ck.work, "a%d" % rng.randrange(10**9)); f2 = f1 + "b"
    with open(f1, "w") as f:
        for a, b in pairs: f.write(fmt(a, rng, rng.randrange(4) if style is None else style) + "\n")
    args = [exe, "-c", cmd, "-i", f1]
    if not one:
        with open(f2, "w") as f:
            for a, b in pairs: f.write(fmt(b, rng, rng.randrange(4) if style is None else style) + "\n")
        args += ["-j", f2]
    try:
        p = subprocess.run(args, capture_output=True, text=True, timeout=60, errors="replace")
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    os.unlink(f1)
    if not one: os.unlink(f2)
    base = [{"cmd": cmd, "a": [list(x) for x in a], "b": ([] if one else [list(x) for x in b])} for a, b in pairs]
    def crash(why):
        return [{"cmd": cmd, "a": [], "b": [], "crash": why, "pairs": [{"a": x["a"], "b": x["b"]} for x in base[:200]]}]
    if rc != 0:
        return crash("status %s" % rc)
    lines = out.split("\n")[:-1]
    try:
        if cmd == "fmeasure":
            v = dict(x.split(": ") for x in lines)
            r = {"cmd": cmd, "pairs": [{"a": x["a"], "b": x["b"]} for x in base]}
            for k in "PRF":
                r[k] = -1 if v[k] in ("-nan", "nan") else round(float(v[k]) * 1000000)
            return [r]
        if cmd == "display":
            recs, i = [], 0
            for x in base:
                i += 1
                g = []
                row = 0
                while lines[i] and lines[i][0] != " ":
                    body = lines[i][1:-1]
                    if lines[i][0] != str(row % 10): raise ValueError("row label")
                    g += [[row, j] for j, c in enumerate(body) if c == "*"]
                    row += 1; i += 1
                i += 2
                recs.append(dict(x, grid=g, out=links_of(lines[i]))); i += 1
            if i != len(lines): raise ValueError("trailing output")
            return recs
        if len(lines) != len(base): raise ValueError("line count")
        return [dict(x, out=links_of(o)) for x, o in zip(base, lines)]
    except (ValueError, IndexError, KeyError) as e:
        return crash("unparsable output: %s" % e)

def rand_align(rng, w, h, p):
    return [(i, j) for i in range(w) for j in range(h) if rng.random() < p]

def rand_pair(rng, big):
    w, h = rng.randint(1, big), rng.randint(1, big)
    p = rng.choice([0.1, 0.25, 0.5])
    a = rand_align(rng, w, h, p)
    if rng.random() < 0.5:
        b = rand_align(rng, rng.randint(1, big), rng.randint(1, big), p)
    else:   # related alignments, as symmetrisation sees them
        b = [x for x in a if rng.random() < 0.6] + [x for x in rand_align(rng, w, h, p / 2) if x not in a]
    return a, b

def check(ck):
    exe = targets.get("atools")["atools"]
    w, h = (3, 3) if ck.thorough else (2, 3)
    ck.model_check("AlignmentsMC", "CONSTANTS W = %d\nH = %d\nSPECIFICATION MCSpec\nINVARIANT Between GrowMaximal FinalMaximal\n"
                   "PROPERTY GrowLicensed FinalLicensed Monotone %s\nCHECK_DEADLOCK FALSE\n" % (w, h, "" if ck.thorough else "Terminates"),
                   name="AlignmentsMC-%dx%d" % (w, h), timeout=3000)
    recs = []
    grid = [(i, j) for i in range(2) for j in range(3)]
    subs = [[g for k, g in enumerate(grid) if m >> k & 1] for m in range(64)]
    allp = [(x, y) for x in subs for y in subs]
    for c in CMDS:
        ps = allp if c.startswith("grow") else ck.rng.sample(allp, 500)
        recs += run_stream(ck, exe, c, ps, ck.rng, style=0)
    n = 4000 if ck.thorough else 400
    big = 9
    for c in CMDS:
        recs += run_stream(ck, exe, c, [rand_pair(ck.rng, big) for _ in range(n)], ck.rng)
    # large growth chains
    recs += run_stream(ck, exe, "grow-diag", [rand_pair(ck.rng, 14) for _ in range(n // 8)], ck.rng)
    for _ in range(60 if not ck.thorough else 600):
        ps = [rand_pair(ck.rng, 5) for _ in range(ck.rng.randint(1, 12))]
        if any(a for a, b in ps) and any(b for a, b in ps):
            recs += run_stream(ck, exe, "fmeasure", ps, ck.rng)
    for r in recs[::len(recs) // 3]: ck.sample(r)
    def confirm(r):
        sid, k = r["at"]
        cmd, pairs, st, style = STREAMS[sid]
        out = run_stream1(ck, exe, cmd, pairs, random.Random(st), style)
        return out[0] if "crash" in out[0] else out[min(k, len(out) - 1)]
    def corrupt(rng, rs):
        r = dict(rng.choice([x for x in rs if x.get("out") and x["cmd"].startswith("grow")]))
        r["out"] = r["out"][1:]
        yield r
        r = dict(rng.choice([x for x in rs if x["cmd"] == "fmeasure" and x["P"] > 0]))
        r["P"] = r["P"] - 5
        yield r
    ck.validate("AlignmentsTrace", recs, CFG, confirm=confirm, corrupt=corrupt)
    ck.cov["commands"] = CMDS + ["fmeasure"]
    ck.cov["exhaustive_2x3_pairs"] = len(allp)
    ck.assumptions = ["links are compared as sets per input line; the printed order of links is not constrained"]

if __name__ == "__main__":
    vlib.main("C09", check)

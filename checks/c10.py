#!/usr/bin/env python3
"""C10: the sentence server against spec/SentServer.tla"""
import os, sys, copy, json, re, subprocess, threading, time, tempfile, socket
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"

def scenario(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])
    lines = ["w%d" % i for i in range(n)]
    if n and rng.random() < .15: lines[rng.randrange(n)] = ""
    if n and rng.random() < .1: lines[rng.randrange(n)] = "long " + "x" * rng.choice([74, 75, 76, 79, 80, 81, 160, 500])
    while rng.random() < .2: lines.insert(rng.randint(0, len(lines)), "===SYNCH===")
    nonl = int(bool(lines) and lines[-1] != "" and lines[-1] != "===SYNCH===" and rng.random() < .15)
    multi = int(rng.random() < .15)
    key = "k1" if rng.random() < .15 else ""
    cl = []
    for c in range(rng.choice([1, 1, 2, 2, 2, 3, 3, 4])):
        acts = "rrrcxRpi" if not multi else "rrrcxRi"
        s = "".join(rng.choice(acts) for _ in range(rng.randint(0, 4))) if rng.random() < .7 else ""
        cl.append(dict(s=s, key=rng.choice(["k1", "k1", "k1", "no", "-", "!", ""]) if key else ""))
    return dict(lines=lines, nonl=nonl, multi=multi, stay=int(rng.random() < .15), key=key, cl=cl)

def explore(exe, cases):
    out = []
    for c, r in zip(cases, vlib.run_harness([exe], cases, shards=min(len(cases), vlib.NCPU), case_timeout=120)):
        if "crash" in r: raise vlib.CheckError("scheduler: %s on %s" % (r["crash"], json.dumps(c)))
        out.append(r)
    return out

def records(cases, res):
    recs = []
    for c, r in zip(cases, res):
        for h in r["h"]: recs.append(dict(case={k: v for k, v in c.items() if k not in ("n",)}, nc=len(c["cl"]), stay=bool(c["stay"]), h=h))
    return recs

def e2e(bins, case):
    """the real server and clients; all clients but the first leave after some lines"""
    srv, cli = bins
    key = ["-k", case["key"]] if case["key"] else []
    ps = []
    r = dict(case, e2e=1, out=[], code=-1)
    try:
        p = subprocess.Popen([srv, "0"] + key, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        ps.append(p)
        killer = threading.Timer(90, lambda: [q.kill() for q in ps]); killer.start()
        port = None
        while port is None:
            ln = p.stderr.readline()
            if not ln: return r
            m = re.search(rb"port (\d+)", ln)
            if m: port = m.group(1).decode()
        threading.Thread(target=lambda: p.stderr.read(), daemon=True).start()
        addr = "127.0.0.1:" + port + (":" + case["key"] if case["key"] else "")
        def client(k):
            body = 'while read -r x; do echo "$x/"; done' if k is None else \
                   'i=0; while [ $i -lt %d ] && read -r x; do echo "$x/"; i=$((i+1)); done%s' % (k[0], "; read -r x" if k[1] else "")
            ps.append(subprocess.Popen([cli, addr, "sh", "-c", body], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True))
        client(None)
        p.stdin.write((case["lines"][0] + "\n").encode()); p.stdin.flush()
        first = p.stdout.readline()
        for k in case["leave"]: client(k)
        p.stdin.write("".join(x + "\n" for x in case["lines"][1:]).encode()); p.stdin.flush()
        out = first     # the input stays open: at its end idle clients are sent away
        for _ in case["lines"][1:]: out += p.stdout.readline()
        p.stdin.close()
        out += p.stdout.read()
        r["code"] = p.wait(); r["out"] = out.decode(errors="replace").split("\n")[:-1]
    except (BrokenPipeError, OSError): pass
    finally:
        killer.cancel()
        for q in ps:
            try: q.kill()
            except OSError: pass
            q.wait()
    return r

def corrupt(rng, recs):
    out = []
    good = [r for r in recs if r["h"][-1] == {"k": "exit", "code": 0} and sum(e["k"] == "out" for e in r["h"]) > 1 and len({e["t"] for e in r["h"] if e["k"] == "out"}) > 1]
    for r in rng.sample(good, min(3, len(good))):
        b = copy.deepcopy(r); o = [i for i, e in enumerate(b["h"]) if e["k"] == "out"]
        i, j = next((i, j) for i in o for j in o if b["h"][i]["t"] != b["h"][j]["t"])
        b["h"][i], b["h"][j] = b["h"][j], b["h"][i]; out.append(b)
        b = copy.deepcopy(r); del b["h"][o[-1]]; out.append(b)
        b = copy.deepcopy(r); k = next(i for i, e in enumerate(b["h"]) if e["k"] == "send"); b["h"].insert(k + 1, b["h"][k]); out.append(b)
    return out

def body(ck):
    exe = targets.get("sentserver")["sentserver"]
    for cfg in MODELS if not ck.thorough else MODELS + DEEP: ck.model_check("SentServerMC", cfg)
    for k, sw in enumerate(["TRUE FALSE TRUE TRUE", "TRUE TRUE FALSE TRUE", "TRUE TRUE TRUE FALSE"]):     # the observer has teeth
        r = ck.tlc("SentServerMC", model("L2", 2, 2, "FALSE", sw))
        if r.ok: raise vlib.CheckError("the observer accepts the unrepaired algorithm " + sw)
    rng = ck.rng
    cases = [dict(scenario(rng), n=500 if not ck.thorough else 2500, seed=rng.randrange(1 << 20), dfs=-1) for _ in range(200 if not ck.thorough else 240)]
    res = explore(exe, cases)
    recs = records(cases, res)
    runs = sum(r["runs"] for r in res)
    ck.log(runs, "schedules,", len(recs), "histories")
    rng.shuffle(recs)
    cap = 40000 if not ck.thorough else 160000
    ck.cov["schedules_run"] = runs; ck.cov["distinct_histories"] = len(recs)
    def again(r):
        x = dict(r["case"], n=r["case"].get("rn", 1500))
        h = explore(exe, [x])[0]["h"]
        # the same history if it still occurs, otherwise one that is rejected
        return dict(r, h=r["h"]) if r["h"] in h else dict(r, h=h[0])
    for i in range(0, min(cap, len(recs)), 40000):
        ck.validate("SentServerTrace", recs[i:i + 40000], CFG, confirm=again, corrupt=corrupt if i == 0 else None)
        if ck.violations: return
    for r in recs[:3]: ck.sample(r)
    b = targets.get("sentserver_bin", "sentclient_bin"); bins = (b["sentserver_bin"], b["sentclient_bin"])
    ec = []
    for _ in range(8 if not ck.thorough else 60):
        ls = ["w%d" % i for i in range(rng.randint(2, 40))]
        for _ in range(rng.choice([0, 0, 1, 2])): ls.insert(rng.randint(1, len(ls)), "===SYNCH===")
        ec.append(dict(lines=ls, key=rng.choice(["", "", "secret"]), leave=[[rng.randint(0, 4), rng.randint(0, 1)] for _ in range(rng.randint(0, 5))]))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: er = list(ex.map(lambda c: e2e(bins, c), ec))
    ck.validate("SentServerTrace", er, CFG, name="programs", confirm=lambda r: e2e(bins, {k: r[k] for k in ("lines", "key", "leave")}))
    # every schedule with a bounded number of preemptions
    if ck.thorough:
        small = [dict(lines=ls, nonl=0, multi=0, stay=st, key="", cl=[dict(s=a, key="") for a in cs], n=3000, seed=1, dfs=d)
                 for ls in ([], ["a"], ["a", "b"], ["===SYNCH===", "a"], ["a", "===SYNCH==="]) for cs in (["r"], ["c"], ["r", "c"], ["c", "c"], ["x", "r"], ["R", "c"], ["i", "r"], ["r", "r"])
                 for st in (0, 1) for d in (1, 2)]
    else:
        small = [dict(lines=ls, nonl=0, multi=0, stay=0, key="", cl=[dict(s=a, key="") for a in cs], n=4000, seed=1, dfs=1)
                 for ls in (["a"], ["a", "b"], ["===SYNCH===", "a"]) for cs in (["c"], ["r", "c"], ["c", "c"], ["R", "c"])]
    dres = explore(exe, small); drec = records(small, dres)
    ck.cov["bounded_preemption"] = {"scenarios": len(small), "schedules": sum(r["runs"] for r in dres), "exhausted": sum(r["complete"] for r in dres), "histories": len(drec)}
    for r, c in zip(drec, [c for c, q in zip(small, dres) for _ in q["h"]]): r["case"]["rn"] = c["n"]
    for i in range(0, len(drec), 40000):
        ck.validate("SentServerTrace", drec[i:i + 40000], CFG, name="bounded", confirm=again)
        if ck.violations: return
def model(ls, nc, lo, stay, sw="TRUE TRUE TRUE TRUE", live=False):
    sw = sw.split()
    return ("SPECIFICATION Spec\nPROPERTY Finishes\nINVARIANT Observed\n" if live else
            "INIT Init\nNEXT Next\nINVARIANT Observed Waiting Ending OneSession InOrder Clients\n") + \
        "CHECK_DEADLOCK FALSE\nCONSTANTS\nLines <- %s\nNC=%d\nLosses=%d\nStay=%s\nRecheckAtEof=%s\nPollInput=%s\nPanicOnDismiss=%s\nFullFlush=%s\n" % (ls, nc, lo, stay, *sw)
MODELS = [model("L2", 2, 2, "FALSE"), model("L2", 2, 2, "TRUE"), model("LS2", 2, 2, "FALSE"), model("L0", 2, 1, "FALSE"), model("L2", 2, 1, "FALSE", live=True)]
DEEP = [model("L3", 3, 3, "FALSE"), model("LS2", 3, 3, "FALSE"), model("L2", 3, 3, "TRUE"), model("LS2", 3, 2, "FALSE", live=True), model("L3", 3, 2, "FALSE", live=True)]
if __name__ == "__main__": vlib.main("C10", body)

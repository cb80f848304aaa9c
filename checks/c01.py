#!/usr/bin/env python3
"""C01: forests built by the SCFG decoder against spec/SCFG.tla"""
import os, sys, copy, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, targets, scfg
CFG = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"

def corrupt(rng, recs):
    out = []
    good = [r for r in recs if "res" in r and any(x["ok"] == 1 and len(x["F"]["E"]) > 3 for x in r["res"])]
    for r in rng.sample(good, min(4, len(good))):
        k = next(i for i, x in enumerate(r["res"]) if x["ok"] == 1 and len(x["F"]["E"]) > 3)
        a = copy.deepcopy(r); F = a["res"][k]["F"]
        for e in F["E"]:
            if e["fs"]: e["fs"][0][1] += 1000; break
        else: F["E"][0]["e"] = ["other"]
        out.append(a)
        b = copy.deepcopy(r); b["res"][k] = dict(b["res"][k], ok=0); out.append(b)
        c = copy.deepcopy(r); c["res"][k]["F"]["E"].append(copy.deepcopy(c["res"][k]["F"]["E"][-1])); c["res"][k]["F"]["in"][-1].append(len(c["res"][k]["F"]["E"])); out.append(c)
    return out

def check(ck):
    exe = targets.get("decoder")["decoder"]
    rng = ck.rng
    ck.model_check("SCFGMC", "SPECIFICATION Spec\nCONSTANT Deep = %s\nINVARIANT Stable\nINVARIANT Complete\nINVARIANT PathsOk\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if ck.thorough else "FALSE"))
    n = 25000 if ck.thorough else 700
    pairs = [scfg.make(rng, ck.thorough and i % 3 == 0) for i in range(n)]
    def run(ps):
        d = tempfile.mkdtemp(dir=ck.work)
        rs = vlib.run_harness([exe, d], [c for c, _ in ps])
        out = []
        for (c, m), r in zip(ps, rs):
            out.append(dict(m, files=c["files"], cfg=c["cfg"], inp=c["in"], **r))
        return out
    recs = run(pairs)
    parsed = sum(x["ok"] == 1 for r in recs if "res" in r for x in r["res"]); total = sum(len(r["lat"]) for r in recs)
    ck.cov["inputs"] = total; ck.cov["parsed"] = parsed
    ck.cov["edges_compared"] = sum(len(x["F"]["E"]) for r in recs if "res" in r for x in r["res"] if x["ok"] == 1)
    ck.cov["largest_forest_edges"] = max([len(x["F"]["E"]) for r in recs if "res" in r for x in r["res"] if x["ok"] == 1] or [0])
    if "crash" not in recs[0]: ck.sample({k: recs[0][k] for k in ("files", "cfg", "inp", "res")})
    def confirm(rec):
        return run([(dict(files=rec["files"], cfg=rec["cfg"], want="F", **{"in": rec["inp"]}), {k: rec[k] for k in ("G", "sent", "glue", "pass", "goal", "nt", "lat")})])[0]
    ck.validate("SCFGTrace", recs, CFG, confirm=confirm, corrupt=corrupt)
    if parsed * 4 < total and not ck.violations: raise vlib.CheckError("only %d of %d inputs parsed" % (parsed, total))

if __name__ == "__main__":
    vlib.main("C01", check)

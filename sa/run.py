"""python3-vt -m sa.run <property id>: decide one property on the current tree."""
import ctypes
import json
import os
import sys
import threading
import time
import traceback

sys.setrecursionlimit(20000)
from . import core
from .core import Check, Broken, VERIF

LEVEL = "other"


def registry():
    from . import props
    return props.load()


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("KNOWN-FINDING: property=%s " % pid):
                body = ln.split(" ", 2)[2]
                if body.startswith("[") and "]" in body:
                    key, txt = body[1:].split("]", 1)
                    out.append((key.strip(), txt.strip()))
    return out


# once something is wrong, the rest of the property only gets a little longer
AFTER = float(os.environ.get("SA_AFTER", "40"))
LIMIT = float(os.environ.get("SA_LIMIT", "780"))


def analyse(p, ck, out):
    try:
        p.fn(ck)
    except Broken as e:
        out.append(str(e))
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        ck.undecided("analysis", "", "%s: %s" % (type(e).__name__, e))


def decide(pid, tier, seed):
    reg = registry()
    if pid not in reg:
        print("no analyser for %s" % pid)
        return 2
    p = reg[pid]
    ck = Check(pid, tier, seed)
    out = []
    t = threading.Thread(target=analyse, args=(p, ck, out), daemon=True)
    t.start()
    end = time.time() + LIMIT
    kn = {k for k, _ in known(pid)}
    while t.is_alive() and time.time() < end:
        t.join(0.25)
        dl = ck.deadline
        if dl is not None and time.time() > dl:
            ck.deadline = time.time() + 3
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(core.Timeout))
        if any(o.status == "violated" and o.name not in kn for o in list(ck.obs)):
            end = min(end, time.time() + AFTER)
    if t.is_alive():
        # the remaining obligations stay undecided
        ck.obs = list(ck.obs)
        ck.undecided("analysis", "", "time limit of the analysis")
    broken = out[0] if out else None
    kf = known(pid)
    used, bad = set(), []
    for o in ck.obs:
        if o.status != "violated":
            continue
        k = next((k for k, _ in kf if k == o.name), None)
        if k is not None:
            used.add(k)
            o.status = "known"
        else:
            bad.append(o)
    d = {"holds": 0, "violated": 0, "undecided": 0, "known": 0}
    for o in ck.obs:
        d[o.status] += 1
    fs, loops, calls = ck.scope()
    cov = {
        "explanation": p.explain,
        "rule": p.rule,
        "obligations": len(ck.obs),
        "discharged": d["holds"],
        "undecided": d["undecided"],
        "known_findings": d["known"],
        "functions_analysed": fs,
        "loops_summarised": loops,
        "call_sites_evaluated": calls,
        "samples": [o.js() for o in ck.obs if o.status == "holds"][:8],
        "undecided_list": [o.js() for o in ck.obs if o.status == "undecided"][:40],
        "violations_list": [o.js() for o in bad][:40],
    }
    cov.update(ck.counts)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": list(p.assumes) + ck.assumptions, "wall_s": round(time.time() - ck.t0, 3),
          "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    rep = os.path.join(VERIF, "evidence", pid + ".violation.json")
    if os.path.exists(rep):
        os.remove(rep)
    if os.environ.get("SA_LIST"):
        for o in ck.obs:
            print("  %-9s %s  [%s] %s" % (o.status, o.name, o.where, o.detail[:int(os.environ.get("SA_W", "300"))]
                                         if o.status != "holds" else o.how))
    for k, t in kf:
        if k in used:
            print("KNOWN-FINDING: property=%s [%s] %s" % (pid, k, t))
    if bad:
        with open(rep, "w") as f:
            json.dump({"property": pid, "rerun": "cd /verif && python3-vt -m sa.run " + pid,
                       "violations": [o.js() for o in bad]}, f, indent=1)
        for o in bad[:12]:
            print("%s: %s: %s" % (o.where, o.name, o.detail[:900]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("%s: %d obligations hold, %d undecided, %d functions, %d loops, %d calls in %.1fs" % (
        pid, d["holds"], d["undecided"], len(fs), loops, calls, time.time() - ck.t0))
    if broken:
        print("ANALYSIS BROKEN: %s" % broken)
        return 2
    if d["holds"] + d["known"] == 0:
        print("ANALYSIS BROKEN: no obligation could be decided")
        return 2
    return 0


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(registry())
    if len(ids) == 1:
        return decide(ids[0], tier, seed)
    # one process per property: symbols are interned per process
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    rc = 0
    with ThreadPoolExecutor(int(os.environ.get("SA_JOBS", "6"))) as ex:
        for r in ex.map(lambda i: subprocess.run([sys.executable, "-m", "sa.run", i], capture_output=True, text=True), ids):
            sys.stdout.write(r.stdout)
            sys.stderr.write(r.stderr)
            rc = max(rc, r.returncode)
    return rc


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

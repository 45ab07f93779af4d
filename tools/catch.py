"""python3-vt tools/catch.py [ids]: which checks report each planted change (scratch copies only)"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [x for x in sys.argv[1:] if not x.startswith("C")] or sorted(os.listdir(V + "/seeded"))
only = [x for x in sys.argv[1:] if x.startswith("C")]
checks = only or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
cp = V + "/tools/caught.json"
res = json.load(open(cp)) if os.path.exists(cp) else {}


def one(sid, pid, d):
    r = subprocess.run(["python3-vt", "-m", "sa.run", pid], cwd=d + "/v", env=dict(os.environ, CAS_REPO=d), capture_output=True, text=True)
    return sid, pid, r.returncode


dirs, jobs = [], []
with cf.ThreadPoolExecutor(8) as ex:
    for s in ids:
        d = tempfile.mkdtemp(prefix="catch.")
        dirs.append(d)
        shutil.copytree("/repo/CasimirRio", d + "/CasimirRio")
        subprocess.run(["git", "init", "-q", d]); 
        if subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % s], cwd=d).returncode:
            print(s, "does not apply")
        os.mkdir(d + "/v")
        shutil.copytree(V + "/sa", d + "/v/sa")
        shutil.copy(V + "/known_findings.txt", d + "/v")
        for p in checks:
            jobs.append(ex.submit(one, s, p, d))
    new = {}
    for j in cf.as_completed(jobs):
        s, p, rc = j.result()
        if rc == 1:
            new.setdefault(s, set()).add(p)
        elif rc:
            print(s, p, "exit", rc)
for d in dirs:
    shutil.rmtree(d)
for s in ids:
    keep = set(res.get(s, [])) - set(checks)
    res[s] = sorted(keep | new.get(s, set()))
    m = json.load(open(V + "/seeded/%s/meta.json" % s))["property"]
    print(s, m, "CAUGHT" if m in res[s] else "MISSED", res[s])
json.dump({k: v for k, v in sorted(res.items()) if os.path.isdir(V + "/seeded/" + k)}, open(cp, "w"), indent=1)

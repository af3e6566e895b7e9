#!/usr/bin/env python3
"""Development only: seed.py ID... [--no-tests] [--no-check]
Confirms a planted bug of /verif/seeded (builds, passes the baseline tests, demo passes clean and fails patched)
and runs its property's check against it.  Works on a copy of /repo; tests run on /repo itself, which is restored."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None, t=900, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    w = f"/tmp/seed-{i}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"git clone -q /repo {w} && cp /repo/Cargo.lock {w}/")
    # the demo is laid elsewhere
    e = f"/tmp/demo-{i}"
    shutil.rmtree(e, ignore_errors=True)
    shutil.copytree(d, e, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    rc0, o0 = sh(f"bash {e}/demo.sh", cwd=w, t=300)
    rc, o = sh(f"git apply --check {d}/patch.diff && git apply {d}/patch.diff", cwd=w)
    if rc: print(i, "DOES NOT APPLY", o); continue
    rc1, o1 = sh(f"bash {e}/demo.sh", cwd=w, t=300)
    msg = [f"demo clean={rc0} patched={rc1}"]
    if rc0 or not rc1: msg.append("BAD DEMO " + (o0 if rc0 else o1)[-1500:])
    if "--no-tests" not in sys.argv:
        assert not sh("git status --porcelain", cwd="/repo")[1].strip()
        sh(f"git apply {d}/patch.diff", cwd="/repo")
        try:
            rb, ob = sh("bash /opt/vp/build.sh", t=600)
            rt, ot = sh(f"bash /opt/vp/test.sh /tmp/seed-{i}.json", t=600)
            base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(f"/tmp/seed-{i}.json"))
            bp = set(base['stable']); gp = set(got.get("passed") or got.get("pass"))
            lost = sorted(bp - gp)
            msg.append(f"build={rb} lost={lost[:3]}" + (ob[-800:] if rb else ""))
        finally:
            sh("git checkout -- .", cwd="/repo")
    if "--no-check" not in sys.argv:
        rc, o = sh(f"python3 tools/check.py {meta['property']}", cwd=V, t=900, env={"HV_REPO": w})
        msg.append(f"check exit={rc} " + " | ".join(l for l in o.splitlines() if l.startswith(("VIOLATION", "INCONCLUSIVE", "HOLDS")))[:600])
    print(i, "; ".join(msg), flush=True)
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(e, ignore_errors=True)

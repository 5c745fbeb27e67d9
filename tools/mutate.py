#!/usr/bin/env python3
"""mutate.py verify ID...   does seeded/ID qualify (applies, builds, stable tests pass, demo 0 -> nonzero)?
   mutate.py check ID...    which checks catch it (own property; or --props C01,C02)
Development tool: works in scratch copies under /tmp/mut, in private mount namespaces."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut/base"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def ns(d, cmd, timeout=600):
    try: return sh("timeout %d unshare -Urmn bash -c 'mount --bind %s /repo && ip link set lo up; cd /repo; %s'" % (timeout, d, cmd))
    except Exception as e: return None
def base():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    st = BASE + ".head"
    if os.path.exists(st) and open(st).read() == head and os.path.isdir(BASE): return
    shutil.rmtree(BASE, ignore_errors=True); os.makedirs("/tmp/mut", exist_ok=True)
    sh("cp -a /repo %s" % BASE)
    r = ns(BASE, "bash /opt/vp/build.sh")
    if r.returncode: print(r.stdout[-2000:]); sys.exit(1)
    open(st, "w").write(head)
def copy(i):
    d = "/tmp/mut/m-" + i
    shutil.rmtree(d, ignore_errors=True)
    sh("cp -a %s %s" % (BASE, d))
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (d, V, i))
    if r.returncode: print(i, "DOES NOT APPLY", r.stdout); return None
    return d
def verify(i):
    base(); d = copy(i)
    if not d: return
    demo = "/tmp/mut/demo-" + i; shutil.rmtree(demo, ignore_errors=True); shutil.copytree("%s/seeded/%s" % (V, i), demo)
    t = time.time(); r0 = ns(BASE, "timeout 300 bash %s/demo.sh" % demo); t0 = time.time() - t
    r = ns(d, "bash /opt/vp/build.sh")
    if r.returncode: print(i, "BUILD FAILS", r.stdout[-1500:]); return
    t = time.time(); r1 = ns(d, "timeout 300 bash %s/demo.sh" % demo); t1 = time.time() - t
    out = "/tmp/mut/%s.json" % i
    ok = False
    for k in range(2):
        ns(d, "bash /opt/vp/test.sh %s" % out)
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p = set(json.load(open(out))["passed"])
        if b <= p: ok = True; break
    print(i, "demo base rc %d (%.0fs) mutant rc %d (%.0fs) tests %s %s" % (r0.returncode, t0, r1.returncode, t1, "ok" if ok else "FAIL", "" if ok else sorted(b - p)[:5]), "QUALIFIES" if ok and r0.returncode == 0 and r1.returncode else "NO")
    if r0.returncode: print("   base:", r0.stdout[-600:])
    if not r1.returncode: print("   mutant:", r1.stdout[-300:])
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
def check(i, props):
    base(); d = copy(i)
    if not d: return
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    for p in props or [meta["property"]]:
        t = time.time()
        r = subprocess.run(["python3", V + "/tools/check.py", p], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        l = [x for x in r.stdout.splitlines() if not x.startswith("VIOLATION")]
        print(i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), "%.0fs" % (time.time() - t), (l[-1] if r.returncode else "")[:220])
    shutil.rmtree(d, ignore_errors=True)
a = sys.argv[1:]; props = None
if "--props" in a: k = a.index("--props"); props = a[k + 1].split(","); del a[k:k + 2]
ids = a[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids: (verify if a[0] == "verify" else lambda x: check(x, props))(i); sys.stdout.flush()

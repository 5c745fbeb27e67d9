#!/usr/bin/env python3
"""check.py PROPERTY          run the check of one property (VERIF_SEED, VERIF_TIER=quick|thorough)
   check.py --replay FILE     run a replay file again, with the log of the run
   check.py --setup           build everything

Exit 0: held on everything explored. 1: violation (line VIOLATION property=.. replay=..). 3: the check itself failed."""
import collections, fnmatch, glob, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import P, WEIGHT

VERIF = B.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK_S = float(os.environ.get("VERIF_QUICK_S", "34"))
THOROUGH_S = float(os.environ.get("VERIF_THOROUGH_S", "540"))
JOBS = os.cpu_count() or 4

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]

def sh(cmd, timeout=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"

def last_json(out):
    for l in reversed(out.strip().splitlines()):
        if l.startswith("{"):
            try: return json.loads(l)
            except ValueError: pass
    return None

def one(exe, scen, prop, seed=None, replay=None, extra=()):
    cmd = [exe, "one", "--scenario", scen, "--prop", prop] + (["--replay", replay] if replay else ["--seed", str(seed)]) + list(extra)
    rc, out, err = sh(cmd, 120)
    return last_json(out), out, err

def die(msg):
    print("ERROR: " + msg); sys.exit(3)

def read_replay(path):
    d = {}
    for l in open(path):
        k, _, v = l.rstrip("\n").partition(" ")
        if k != "stream": d[k] = v
    return d

def replay_main(path):
    d = read_replay(path)
    src = None
    for p in P.values():
        for s in p["plan"]:
            if s["scenario"] == d["scenario"]: src = s["src"].split(",")
    if not src: die("unknown scenario " + d["scenario"])
    exe = B.build([d["variant"]], src)[d["variant"]]
    rc, out, err = sh([exe, "one", "--scenario", d["scenario"], "--prop", d["property"], "--replay", path, "--verbose", "1"], 120)
    sys.stdout.write(out); sys.stderr.write(err)
    o = last_json(out)
    same = o and o["status"] == 2 and o["class"] == d["class"]
    if same: print("VIOLATION property=%s replay=%s" % (d["property"], path)); print("reproduced: same violation%s" % (", identical run" if o["hash"] == d["hash"] else ", but the run differs (other sources?)"))
    else: print("not reproduced")
    return 1 if same else 0

def main(pid):
    t0 = time.time()
    plan = P[pid]["plan"]
    jobs = []
    for s in plan:
        vs = s[TIER]
        for v in vs: jobs.append((s, v, s["weight"] * WEIGHT[v]))
    variants = sorted({j[1] for j in jobs}, key=list(WEIGHT).index)
    srcs = sorted({f for s in plan for f in s["src"].split(",")})
    try: exes = B.build(variants, srcs)
    except B.BuildError as e: die("build failed\n" + str(e))
    tb = time.time() - t0
    budget = QUICK_S if TIER == "quick" else THOROUGH_S
    total = sum(j[2] for j in jobs)
    tmp = tempfile.mkdtemp(prefix="simcheck.")
    findings = [f for f in known_findings() if f["property"] == pid]
    agg = collections.Counter(); cnt = collections.Counter(); discarded = collections.Counter(); other = collections.Counter()
    per = []; fails = []; knownhits = {}; nondet = []; distinct = 0; maxns = 0
    try:
        for ji, (s, v, w) in enumerate(jobs):
            kn = []
            for f in findings:
                if f["scenario"] == s["scenario"] and v in f.get("variants", [v]): kn += ["--known", f["class"]]
            out = os.path.join(tmp, s["scenario"] + "-" + v)
            tl = max(0.5, budget * w / total)
            cmd = [exes[v], "batch", "--scenario", s["scenario"], "--prop", pid, "--seed", str(SEED * 100 + ji), "--count", "1000000000", "--time", "%.2f" % tl,
                   "--jobs", str(JOBS), "--out", out, "--recheck", "60"] + kn
            rc, so, se = sh(cmd, tl + 300)
            sm = last_json(so)
            if rc != 0 or not sm or sm["workers_failed"]: die("batch of %s/%s failed: rc %s %s %s" % (s["scenario"], v, rc, so[-500:], se[-500:]))
            distinct += sm["distinct"]; r1 = collections.Counter()
            for f in glob.glob(out + ".w*"):
                d = json.load(open(f))
                for k in ("runs", "nontrivial", "sim_ns", "calls", "events", "rechecks", "nondet"): agg[k] += d[k]; r1[k] += d[k]
                maxns = max(maxns, d["max_sim_ns"])
                if d["nondet"]: nondet.append("%s/%s seed %s" % (s["scenario"], v, d["nondet_ex"]))
                cnt.update(d["counters"]); discarded.update(d["discarded"]); other.update(d["other"])
                for x in d["fails"]: fails.append((s, v, x))
                for c, n in d["known"].items():
                    knownhits.setdefault(c, [0, None]); knownhits[c][0] += n
            per.append({"scenario": s["scenario"], "variant": v, "runs": r1["runs"], "nontrivial": r1["nontrivial"], "distinct_interleavings": sm["distinct"], "seconds": sm["wall"]})
            if fails: break
        violations = []
        if fails:
            seen = set()
            for s, v, x in sorted(fails, key=lambda f: f[2]["idx"]):
                if x["class"] in seen or len(violations) >= 3: continue
                seen.add(x["class"])
                # gate: the same seed must fail identically in two fresh processes
                a, _, _ = one(exes[v], s["scenario"], pid, seed=x["seed"])
                b, _, _ = one(exes[v], s["scenario"], pid, seed=x["seed"])
                if not a or not b or a["status"] != 2 or b["status"] != 2 or a["class"] != b["class"] or a["hash"] != b["hash"]:
                    nondet.append("%s/%s seed %s: %s vs %s" % (s["scenario"], v, x["seed"], a and a["class"], b and b["class"])); continue
                rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
                path = os.path.join(rd, "%s-%s-%s-%s.replay" % (pid, s["scenario"], v, x["seed"]))
                rc, so, se = sh([exes[v], "shrink", "--scenario", s["scenario"], "--prop", pid, "--seed", str(x["seed"]), "--time", "12" if TIER == "quick" else "60", "--out", path], 300)
                sj = last_json(so)
                c = None
                if rc == 0 and sj and "error" not in sj: c, _, _ = one(exes[v], s["scenario"], pid, replay=path)
                if not c or c["status"] != 2 or c["class"] != a["class"]:
                    one(exes[v], s["scenario"], pid, seed=x["seed"], extra=["--record", path])
                    c, _, _ = one(exes[v], s["scenario"], pid, replay=path)
                    if not c or c["status"] != 2: nondet.append("replay of seed %s does not reproduce" % x["seed"]); continue
                violations.append({"class": c["class"], "message": c["msg"], "seed": x["seed"], "scenario": s["scenario"], "variant": v, "replay": path, "shrunk": sj})
        wall = time.time() - t0
        run_s = sum(p["seconds"] for p in per) or 1e-9
        samples = []
        for ji, p in enumerate(per[:2]):
            s, v = p["scenario"], p["variant"]
            for i in range(2):
                sd = B_splitmix(SEED * 100 + ji, i)
                o, out, err = one(exes[v], s, pid, seed=sd, extra=["--verbose", "1"])
                lines = out.splitlines()
                samples.append({"scenario": s, "variant": v, "seed": sd, "outcome": o, "log_lines": len(lines), "log": lines[:25] + (["..."] if len(lines) > 25 else [])})
        write_evidence(pid, agg, cnt, discarded, other, per, distinct, maxns, run_s, wall, tb, samples, violations, knownhits, nondet, findings)
        for f in findings:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        print("%s: %d simulated runs (%d nontrivial, %d distinct interleavings), %.0f simulated seconds, %.0f runs/h, %.1f s wall" %
              (pid, agg["runs"], agg["nontrivial"], distinct, agg["sim_ns"] / 1e9, agg["runs"] / run_s * 3600, wall))
        for x in violations:
            print("%s/%s seed %s: %s: %s" % (x["scenario"], x["variant"], x["seed"], x["class"], x["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, x["replay"]))
        if violations: return 1
        if nondet:
            print("ERROR: nondeterministic runs: " + "; ".join(nondet[:5])); return 3
        if agg["nontrivial"] == 0:
            print("ERROR: nothing was explored"); return 3
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def B_splitmix(seed0, i):
    m = (1 << 64) - 1
    x = (seed0 * 1000003 + i) & m
    x = (x + 0x9e3779b97f4a7c15) & m
    z = x
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & m
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & m
    return (z ^ (z >> 31)) >> 1

def write_evidence(pid, agg, cnt, discarded, other, per, distinct, maxns, run_s, wall, tb, samples, violations, knownhits, nondet, findings):
    faults = {k[6:]: n for k, n in sorted(cnt.items()) if k.startswith("fault.")}
    env = {k[4:]: n for k, n in sorted(cnt.items()) if k.startswith("net.")}
    rest = {k: n for k, n in sorted(cnt.items()) if not k.startswith("fault.") and not k.startswith("net.")}
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration", "wall_s": round(wall, 1),
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": distinct,
            "rule": "One case = one simulated run of the scenario decided by one seed (workload, schedule, network, faults, clocks, memory). It is non-trivial if "
                    + P[pid]["nontrivial"] + "; distinct = different hash of the sequence of events (who did what in which order with which outcome, without times).",
            "samples": samples,
            "runs_per_hour": int(agg["runs"] / run_s * 3600), "seeds_per_hour": int(agg["runs"] / run_s * 3600),
            "nontrivial_runs": agg["nontrivial"], "simulated_seconds": round(agg["sim_ns"] / 1e9, 3), "longest_run_simulated_seconds": round(maxns / 1e9, 3),
            "simulated_system_calls": agg["calls"], "logged_events": agg["events"],
            "determinism_rechecks": agg["rechecks"], "nondeterministic": agg["nondet"],
            "faults_injected": faults, "environment_events": env, "scenario_counters": rest,
            "discarded_runs": dict(discarded), "other_properties_violated": dict(other),
            "batches": per, "build_seconds": round(tb, 1),
            "real_components": "all .c files of /repo (library and dns/), compiled from the working tree; OpenSSL's libssl/libcrypto where TLS is used",
            "simulated_components": "sockets, pipes, epoll/poll, clocks and cycle counter, timers, malloc/free/mprotect, files, threads' scheduling, remote peers",
        },
        "violations": violations, "known_findings": [f["what"] for f in findings], "known_finding_hits": {k: v[0] for k, v in knownhits.items()},
    }
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    t = os.path.join(d, ".%s.%d" % (pid, os.getpid()))
    with open(t, "w") as f: json.dump(ev, f, indent=1)
    os.replace(t, os.path.join(d, pid + ".json"))

if __name__ == "__main__":
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(3)
    if a[0] == "--setup":
        try: B.build(list(WEIGHT), sorted({f for p in P.values() for s in p["plan"] for f in s["src"].split(",")}))
        except B.BuildError as e: die(str(e))
        sys.exit(0)
    if a[0] == "--replay": sys.exit(replay_main(a[1]))
    sys.exit(main(a[0]))

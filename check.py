#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough]: build the simulator from /repo's working
tree, run a seeded batch of simulated executions for one property, gate and minimise any
violation, write evidence/<property>.json. Exit 0 held, 1 violation, 2 error of the check."""
import sys, os, json, subprocess, time, argparse, re, struct, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from checks import CHECKS, REAL, STUB

OUT = os.environ.get("QM_OUT", os.path.join(VERIF, "out"))          # replays and scratch
EVD = os.environ.get("QM_EVIDENCE", os.path.join(VERIF, "evidence"))

def log(*a):
    print(*a, flush=True)

def die(msg):
    log("ERROR: " + msg)
    sys.exit(2)

def run_batch(exe, c, prop, tier, seed, out, nworkers, known):
    t = c[tier]
    procs = []
    for i in range(nworkers):
        fail = os.path.join(out, "%s-%d.raw" % (prop, i))
        sets = os.path.join(out, "%s-%d.set" % (prop, i))
        for f in (fail, sets):
            if os.path.exists(f):
                os.remove(f)
        cmd = [exe, "batch", "--prop=" + prop, "--worlds=" + c["worlds"], "--seed=%d" % seed, "--from=%d" % i,
               "--stride=%d" % nworkers, "--count=%d" % t["runs"], "--wall=%g" % t["wall"], "--fail=" + fail,
               "--sets=" + sets, "--known=" + known, "--tier=" + tier, "--cpu=%d" % t.get("cpu", 40)]
        procs.append([subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), fail, sets, None])
    found, t0 = None, time.time()
    while any(p[3] is None for p in procs):
        for p in procs:
            if p[3] is None and p[0].poll() is not None:
                o, e = p[0].communicate()
                try:
                    p[3] = json.loads(o.strip().splitlines()[-1])
                except (ValueError, IndexError):
                    p[3] = {"error": (o + e)[-500:] + " status %s" % p[0].returncode}
                if p[3].get("found") and not found:
                    found = (p[1], p[3])
        if found:
            # one more second for the others, then stop them
            time.sleep(1.0)
            for p in procs:
                if p[3] is None and p[0].poll() is None:
                    p[0].kill(); p[0].communicate(); p[3] = {"stopped": True}
        if time.time() - t0 > t["wall"] + 120:
            for p in procs:
                if p[3] is None:
                    p[0].kill(); p[0].communicate(); p[3] = {"error": "worker overran its time limit"}
        time.sleep(0.02)
    return [p[3] for p in procs], [p[2] for p in procs], found

def replay(exe, f):
    r = subprocess.run([exe, "replay", f], capture_output=True, text=True)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return None

def symbolise(exe, msg):
    m = re.search(r"pc 0x([0-9a-f]+)", msg)
    if not m:
        return msg
    r = subprocess.run(["addr2line", "-Cfpe", exe, m.group(1)], capture_output=True, text=True)
    return msg + " = " + r.stdout.strip() if r.returncode == 0 else msg

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    a = ap.parse_args()
    prop = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if prop not in CHECKS:
        die("unknown property " + prop)
    c = dict(CHECKS[prop])
    c[tier] = dict(c[tier])
    if a.runs: c[tier]["runs"] = a.runs
    if a.wall: c[tier]["wall"] = a.wall
    t0 = time.time()
    exe = B.build()
    if not exe:
        die("the simulator does not build against this tree")
    out = os.path.join(OUT, "%s-%d" % (prop, os.getpid()))
    os.makedirs(out, exist_ok=True)
    os.makedirs(EVD, exist_ok=True)
    known = os.path.join(VERIF, "known-findings.txt")
    tb = time.time()
    stats, sets, found = run_batch(exe, c, prop, tier, a.seed, out, a.workers, known)
    errs = [s["error"] for s in stats if "error" in s]
    good = [s for s in stats if "runs" in s]
    if errs and not found:
        die("worker failed: " + errs[0])
    S = lambda k: sum(s.get(k, 0) for s in good)
    nondet = S("nondeterministic")
    allset = set()
    for f in sets:
        if os.path.exists(f):
            d = open(f, "rb").read()
            allset.update(struct.unpack("<%dQ" % (len(d) // 8), d))
            os.remove(f)
    kh, pw, fired, probes = {}, {}, {}, {}
    for s in good:
        for k, v in s["known"].items(): kh[k] = kh.get(k, 0) + v
        for k, v in s["perworld"].items(): pw[k] = pw.get(k, 0) + v
        for k, v in s["probes"].items(): probes[k] = probes.get(k, 0) + v
        for k, v in s["fired"].items():
            o = fired.setdefault(k, [0, 0]); o[0] += v[0]; o[1] += v[1]
    edges = 0
    for s in good: edges |= int(s.get("edges") or "0", 16)
    bw = max([s.get("wall", 0) for s in good] + [1e-9])
    viol = None
    if found:
        raw, st = found
        r1, r2 = replay(exe, raw), replay(exe, raw)
        if not (r1 and r2 and r1["violation"] and r1["same_class"] and r1["same_hash"] and r2["same_hash"] and r2["same_class"]):
            die("violation does not replay exactly: %s / %s / %s" % (st.get("message"), r1, r2))
        final = os.path.join(OUT, "%s-seed%d.replay" % (prop, a.seed))
        m = subprocess.run([exe, "minimise", raw, final], capture_output=True, text=True)
        mi = None
        if m.returncode == 0 and os.path.exists(final):
            r3, r4 = replay(exe, final), replay(exe, final)
            if r3 and r4 and r3["same_class"] and r3["same_hash"] and r4["same_hash"]:
                mi = json.loads(m.stdout.strip().splitlines()[-1])
        if not mi:
            os.replace(raw, final)
            mi = {"message": st["message"], "ops": None, "decisions": None}
        viol = {"class": st["class"], "message": symbolise(exe, mi["message"]), "ops": mi["ops"], "decisions": mi["decisions"], "replay": final}
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": S("runs"),
            "distinct_nontrivial": len(allset),
            "rule": c["rule"] + " A case is one simulated run drawn from (VERIF_SEED, run number); it counts as distinct by the hash of its operation list together with its context-switch sequence (thread pair and per-thread synchronisation index of every switch).",
            "samples": [x for s in good for x in s["samples"]][:6],
            "executions": S("executions"),
            "runs_per_hour": int(S("runs") / bw * 3600) if good else 0,
            "seeds_per_hour": int(S("runs") / bw * 3600) if good else 0,
            "simulated_seconds": round(S("vtime_s"), 3),
            "simulated_audio_seconds": round(S("audio_s"), 1),
            "operations": S("ops"), "sync_points": S("sync_ops"), "instrumented_accesses": S("accesses"),
            "context_switches": S("switches"), "simulated_threads": S("threads"),
            "runs_with_interleaving": S("multi"),
            "faults_and_scheduling_decisions_fired": {k: {"times": v[0], "executions": v[1]} for k, v in fired.items()},
            "rare_conditions_reached": {k: v for k, v in probes.items() if v},
            "control_flow_edges_of_the_code_under_test": {"reached": bin(edges).count("1"), "of": max([s.get("edges_total", 0) for s in good] or [0])},
            "runs_per_world": pw,
            "determinism": {"runs_executed_twice": S("rechecked"), "differences": nondet},
            "violations_of_other_properties_seen": S("other"),
            "known_findings_hit": kh,
            "real_code": REAL + c.get("real", []), "stubs": STUB,
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(EVD, prop + ".json"), "w"), indent=1)
    try:
        for f in os.listdir(out):
            os.remove(os.path.join(out, f))
        os.rmdir(out)
    except OSError:
        pass
    if os.path.exists(known):
        for l in open(known):
            m = re.match(r"open:\s*property=(\S+)[^|]*\|\s*(.*)", l)
            if m and m.group(1) == prop:
                log("KNOWN-FINDING: property=%s %s" % (prop, m.group(2).strip()))
    for s in good:
        if s["other"]:
            log("note: other property's violation seen: " + s["othermsg"][:400]); break
    log("%s %s: %d runs (%d executions, %d distinct) in %.1f s batch, %.1f s total, seed %d" % (prop, tier, S("runs"), S("executions"), len(allset), bw, time.time() - t0, a.seed))
    if viol:
        log("class %s: %s (minimised to %s operations, %s scheduling/fault decisions)" % (viol["class"], viol["message"], viol["ops"], viol["decisions"]))
        log("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
        sys.exit(1)
    if nondet:
        die("nondeterministic run: " + next((s["othermsg"] for s in good if s["nondeterministic"]), ""))
    if S("runs") == 0:
        die("no run completed")
    sys.exit(0)

main()

#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Builds the simulator around /repo's working tree, searches schedules, inputs
and faults for a violation of PROPERTY with VERIF_SEED, and writes
evidence/PROPERTY.json. Exit 0: held; 1: violated (VIOLATION line); 2: the
check itself failed.
"""
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SECS = {"quick": 35, "thorough": 660}
SHRINK = {"quick": 30, "thorough": 60}

REAL = ("bpass main package (CLI parsing, REPL, commands, sync, merge, import/export, save), blobformat, txlogs, crypt, pkcs7, "
        "fuzzy, scpsync, pinentry, osutil; the Go standard library above the system-call boundary; golang.org/x/crypto/ssh client state machine; "
        "flaggy, color, otp, uuid, camellia, cast5")
STUB = ("kernel and file system (in-memory, with page cache, directory journal and power loss), wall clock, randomness, process scheduling, "
        "terminal line editor (readline), system clipboard, $EDITOR, lpass, pinentry and xdg-open programs, "
        "network and sshd/scp server (in-process peer speaking to the ssh client hook), scrypt (fast stand-in with the same signature), "
        "RSA key generation (fixed key)")


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = int(os.environ.get("VERIF_SECS", SECS[tier]))
    begin = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        return run(prop, tier, seed, secs, scratch, begin)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, secs, scratch, begin):
    env = dict(os.environ)
    b = subprocess.run([os.path.join(HERE, "tools/build.sh"), scratch], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sim = os.path.join(scratch, "sim.test")
    if b.returncode != 0 or not os.path.exists(sim):
        print(b.stdout)
        print("check: building the simulator failed", file=sys.stderr)
        return 2
    built = time.time() - begin
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = os.path.join(HERE, "known-findings.txt")
    stop = os.path.join(scratch, "stop")
    procs = []
    for w in range(WORKERS):
        out = os.path.join(scratch, "out.%d.json" % w)
        log = open(os.path.join(scratch, "log.%d" % w), "w")
        procs.append((w, out, log, subprocess.Popen(
            [sim, "batch", "prop=" + prop, "seed=%d" % seed, "worker=%d" % w, "nworkers=%d" % WORKERS, "secs=%d" % secs, "tier=" + tier,
             "out=" + out, "replaydir=" + replays, "known=" + known, "stop=" + stop, "shrink=%d" % SHRINK[tier]],
            stdout=log, stderr=subprocess.STDOUT, cwd=scratch)))
    limit = time.time() + secs + SHRINK[tier] + 60
    sums, errors = [], []
    for w, out, log, p in procs:
        try:
            rc = p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("worker %d did not finish: %s" % (w, open(log.name).read()[-1500:]))
            continue
        if rc not in (0, 1) or not os.path.exists(out):
            errors.append("worker %d failed (%d): %s" % (w, rc, open(log.name).read()[-3000:]))
            continue
        with open(out) as f:
            sums.append(json.load(f))
    violations = [s for s in sums if s.get("violation")]
    confirmed = None
    for s in sorted(violations, key=lambda s: s["replay"]):
        r = subprocess.run([sim, "replay", s["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch, timeout=120)
        print(r.stdout.strip())
        if r.returncode in (1, 3):
            confirmed = s
            if r.returncode == 3:
                print("check: the replay shows the violation with a different trace")
            break
        errors.append("replay %s does not reproduce" % s["replay"])
    evidence(prop, tier, seed, sums, begin, built, 1 if confirmed else 0)
    if confirmed:
        print("VIOLATION property=%s replay=%s" % (prop, confirmed["replay"]))
        return 1
    if errors:
        for e in errors:
            print("check: " + e, file=sys.stderr)
        return 2
    kn = collections.Counter()
    msgs = {}
    for s in sums:
        kn.update(s.get("known") or {})
        msgs.update(s.get("known_msg") or {})
    for line in open(known) if os.path.exists(known) else []:
        if line.startswith("known: ") and ("property=%s " % prop) in line:
            print("KNOWN-FINDING: " + line[len("known: "):].strip())
    if sum(s["runs"] for s in sums) == 0 or sum(s["nontrivial"] for s in sums) == 0:
        print("check: nothing was explored", file=sys.stderr)
        return 2
    print("%s held: %d runs, %d sessions, %.0f s" % (prop, sum(s["runs"] for s in sums), sum(s["sessions"] for s in sums), time.time() - begin))
    return 0


def evidence(prop, tier, seed, sums, begin, built, nviol):
    def tot(k):
        return sum(s.get(k) or 0 for s in sums)

    def merged(k):
        c = collections.Counter()
        for s in sums:
            c.update(s.get(k) or {})
        return dict(sorted(c.items()))

    hashes, shapes, samples = set(), set(), []
    for s in sums:
        hashes.update(s["hashes"] or [])
        shapes.update(s["shapes"] or [])
        samples += (s["samples"] or [])[:1]
    secs = max([s["seconds"] for s in sums] or [0]) or 1
    rule = next((s.get("rule") for s in sums if s.get("rule")), "")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - begin, 1), "violations": nviol,
        "assumptions": [
            "the simulated kernel, file system, ssh server and terminal behave like real ones in what the program can observe",
            "scrypt is replaced by a fast function with the same interface; the ciphers, hashes and file format are the real ones",
            "seeded sampling: evidence, not proof",
        ],
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": len(hashes),
            "rule": rule + "; two runs count as distinct when their full event traces (prompts, replies, system calls, faults, outcomes) differ",
            "samples": samples[:6] or ["none"],
            "simulated_sessions": tot("sessions"),
            "simulated_seconds": round(tot("sim_ns") / 1e9),
            "events": tot("events"),
            "commands_typed": tot("commands"),
            "prompts_answered": tot("prompts"),
            "process_switches": tot("switches"),
            "distinct_interleavings": len(shapes),
            "interleaving_measure": "hash of the sequence of (process, kind of event) over the whole run",
            "runs_per_hour": round(tot("runs") / secs * 3600),
            "seeds_per_hour": round(tot("runs") / secs * 3600),
            "seed_note": "each run has its own seed derived from VERIF_SEED, the property and the run index",
            "faults_injected": merged("faults"),
            "probes": merged("probes"),
            "scenarios": merged("scens"),
            "determinism_reruns": tot("determinism_reruns"),
            "known_findings_met": merged("known"),
            "build_s": round(built, 1),
            "real_components": REAL,
            "stubbed_components": STUB,
        },
    }
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.rename(path + ".tmp", path)


sys.exit(main())

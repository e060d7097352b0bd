#!/usr/bin/env python3
"""check.py C01..C17 quick|thorough   decides one property by seeded simulation of /repo's current code
   check.py replay FILE [--trace]    replays a recorded violation exactly
   check.py setup                    prebuilds the harness"""
import json, os, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild

VERIF = simbuild.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")
QUICK_S, QUICK_MIN = float(os.environ.get("SIM_QUICK_S", "25")), 40
THOROUGH_S, THOROUGH_MIN = float(os.environ.get("SIM_THOROUGH_S", "600")), 120
PROBES = {0: "allocations refused for exceeding the memory of the machine", 1: "stores to memory of the shared hierarchy",
          2: "accesses to written static data of the library", 3: "operations retried after a fault"}
RULES = {
    "default": "a run is a generated plan (operations on hierarchies, files and streams, deliveries, faults, thread switches) executed against the real code; "
               "non-trivial: at least one fault was injected or one thread switch taken; distinct: different event log hash",
    "C03": "a run is a generated plan of files and ways to deliver them, executed against the real code; non-trivial: some delivery is not 'whole file at once'; distinct: different event log hash",
    "C17": "a run is a generated plan of chunks and foreign data on shared streams, executed against the real code; non-trivial: some delivery is not 'whole file at once'; distinct: different event log hash",
    "C05": "a run is a generated plan of damaged inputs and faults, executed against the real code; non-trivial: the input was damaged or a fault was injected; distinct: different event log hash",
}


def known(prop):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(C\d\d) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    tmp = tempfile.mkdtemp(prefix="simcheck-")
    try:
        try:
            t0 = time.time()
            prog = simbuild.build(os.path.join(tmp, "b"))
            built = time.time() - t0
        except simbuild.BuildError as e:
            print("ERROR cannot build the simulator:\n%s" % e)
            return 2
        if sys.argv[1] == "setup":
            print("harness built in %.1f s" % built)
            return 0
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("ASAN_OPTIONS"):
                del env[k]
        if sys.argv[1] == "replay":
            return subprocess.call([prog, "replay", os.path.abspath(sys.argv[2])] + (["--trace", "1"] if "--trace" in sys.argv else []), cwd=tmp, env=env)
        prop = sys.argv[1]
        n = int(prop[1:])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        secs, mins = (QUICK_S, QUICK_MIN) if tier == "quick" else (THOROUGH_S, THOROUGH_MIN)
        work = os.path.join(tmp, "w")
        os.makedirs(work)
        cmd = [prog, "batch", "--prop", str(n), "--seed", str(seed), "--tier", tier, "--secs", str(secs), "--min", str(mins), "--workers", str(os.cpu_count() or 8), "--dir", work]
        t1 = time.time()
        r = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + mins + 240)
        sys.stdout.write(r.stdout)
        rc = r.returncode
        violated, replay = False, None
        if rc == 1:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            replay = os.path.join(VERIF, "replays", "%s-seed%d.txt" % (prop, seed))
            shutil.copy(os.path.join(work, "replay"), replay)
            q = subprocess.run([prog, "replay", replay], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if q.returncode == 1:
                violated = True
                rc = 1
            else:
                print("ERROR the replay file does not reproduce the violation:\n" + q.stdout)
                rc = 2
        st = json.load(open(os.path.join(work, "stats.json"))) if os.path.exists(os.path.join(work, "stats.json")) else None
        if st is None and rc == 0:
            print("ERROR the simulator left no statistics")
            rc = 2
        findings = []
        if n == 5 and rc in (0, 1):
            d = subprocess.run([prog, "deep", "--depth", "60000", "--stack", str(1 << 20)], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if d.stdout.strip() == "crashed":
                listed = [f for f in known(prop) if f[0] == "deep-nesting"]
                if listed:
                    print("KNOWN-FINDING: property=%s %s" % (prop, listed[0][1]))
                    findings.append("deep-nesting")
                else:
                    replay = os.path.join(VERIF, "replays", "C05-deep-nesting.txt")
                    os.makedirs(os.path.dirname(replay), exist_ok=True)
                    open(replay, "w").write("# property C05: reading 60000 nested CAT chunks on a stack of 1 MiB overflows the stack\n# sim deep --depth 60000 --stack 1048576\n")
                    violated, rc = True, 1
            elif d.stdout.strip() != "survived":
                print("ERROR the deep nesting probe gave no answer: " + d.stdout)
                rc = 2
        if st:
            if st["other_property"]:
                print("note: in %d runs an oracle of another property fired, first in run %d: %s" % (st["other_property"], st["other_run"], st["other_first"]))
            if st["no_answer"]:
                print("note: %d runs gave no answer, first run %d: %s" % (st["no_answer"], st["no_run"], st["no_answer_first"]))
                if rc == 0:
                    rc = 2
            samples = []
            sp = os.path.join(work, "samples")
            if os.path.exists(sp):
                samples = [json.loads(l) for l in open(sp) if l.strip()]
            wall = time.time() - t1
            cov = {
                "evaluations": st["runs"], "distinct_nontrivial": st["distinct"], "rule": RULES.get(prop, RULES["default"]), "samples": samples or ["(no run was finished)"],
                "simulated_runs_per_hour": int(st["runs"] / max(st["wall"], 1e-3) * 3600), "seeds_per_hour": int(st["runs"] / max(st["wall"], 1e-3) * 3600),
                "simulated_time": "the code has no clock; length is counted in steps (basic-block edges, memory accesses and system calls of the real code)",
                "steps": st["steps"], "longest_run_steps": st["longest_run_steps"], "events_logged": st["events"],
                "faults_injected": st["faults"], "thread_switches": st["switches"], "operations": st["ops"],
                "operations_succeeded": st["ops_succeeded"], "operations_failed": st["ops_failed"], "operations_skipped": st["ops_skipped"],
                "code_edges_reached": st["edges_covered"], "code_edges_total": st["edges_total"],
                "rare_situations": {v: st["probes"][k] for k, v in PROBES.items()},
                "runs_stopped_by_oracles_of_other_properties": st["other_property"], "runs_without_answer": st["no_answer"],
                "known_findings_seen": findings,
                "real_components": ["libiff (all of src/libiff/*.c)", "iffjoin (main.c, join.c)", "iffpp (main.c, pp.c)", "glibc stdio buffering, formatting and getopt"],
                "stub_components": ["files, pipes and standard streams below stdio (simulated disk)", "heap (malloc family, over AddressSanitizer's)", "thread scheduler", "application chunk handlers (generated)", "process exit and crash"],
                "build_s": round(built, 2),
            }
            ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                  "assumptions": ["faults are those of the simulated kernel and allocator", "x86-64 little-endian, clang -O1 with AddressSanitizer", "the reference model (sim/model.cc) states the intended behaviour"],
                  "wall_s": round(wall + built, 2), "violations": 1 if violated else 0}
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            e = os.path.join(VERIF, "evidence", prop + ".json")
            with open(e + ".tmp", "w") as f:
                json.dump(ev, f, indent=1)
            os.replace(e + ".tmp", e)
            print("%s %s: %d runs (%d distinct and non-trivial), %d faults injected, %d switches, %d of %d edges, %.1f s" %
                  (prop, tier, st["runs"], st["distinct"], sum(f["injected"] for f in st["faults"].values()), st["switches"], st["edges_covered"], st["edges_total"], wall))
        if violated:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

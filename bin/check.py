#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs the workload of one property.

usage: check.py PROPERTY [quick|thorough]      (VERIF_SEED, VERIF_TIER)
       check.py --build PROPERTY...            builds only
       check.py --replay FILE                  replays a violation in a fresh process
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = "stable-x86_64-unknown-linux-gnu"
SIMD = "nightly-2023-04-01-x86_64-unknown-linux-gnu"
VARIANTS = {
    "std": (STABLE, "", []),
    "sse2": (SIMD, "", ["use_sse2"]),
    "avx2": (SIMD, "-C target-feature=+sse2,+sse3,+avx,+avx2", ["use_avx2"]),
}
CONFIG = json.load(open(os.path.join(VERIF, "bin", "config.json")))


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(prop, variant):
    tc, flags, feats = VARIANTS[variant]
    feats = [prop.lower()] + feats
    target = os.path.join(VERIF, "target", variant)
    env = dict(os.environ)
    env.pop("RUSTC", None)
    env.update(
        RUSTUP_TOOLCHAIN=tc, RUSTFLAGS=flags, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true",
        RUSTC_WRAPPER=os.path.join(VERIF, "rustc_wrap.sh"), CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
        PATH="/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin"),
    )
    for k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
        env.pop(k, None)
    cmd = ["cargo", "build", "--offline", "--no-default-features", "--features", ",".join(feats)]
    lock = os.path.join(VERIF, "harness", "dst", "Cargo.lock")
    before = open(lock).read()
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness", "dst"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        # warnings of the code under test are of no interest here
        parts = r.stdout.split("\n\n")
        return None, "\n\n".join(x for x in parts if not x.lstrip().startswith("warning"))
    out = os.path.join(VERIF, "target", "bin")
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "dst-%s-%s" % (prop, variant))
    tmp = exe + ".%d" % os.getpid()
    shutil.copy2(os.path.join(target, "debug", "dst"), tmp)
    os.replace(tmp, exe)
    if open(lock).read() != before:
        open(lock, "w").write(before)
    return exe, ""


def missing_symbols(log):
    """The C functions which the simulated client calls and which the library doesn't export"""
    if "linking with" not in log:
        return []
    return sorted(set(re.findall(r"undefined (?:symbol: |reference to [`'])(\w+)", log)))


def known_classes(prop):
    """known: property=P01 class=... text / fixed: property=... commit text"""
    l = []
    for line in open(os.path.join(VERIF, "known_findings.txt"), errors="replace"):
        if line.startswith("known:"):
            f = line.split(None, 3)
            p = f[1].split("=", 1)[1].split(",")
            if prop in p:
                l.append((f[2].split("=", 1)[1], f[3].strip()))
    return l


def seed_of():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        bad = 0
        for p in sys.argv[2:]:
            for v in CONFIG[p]["variants"]:
                exe, log = build(p, v)
                if exe is None:
                    print(log[-4000:])
                    bad = 1
        sys.exit(bad)
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        head = dict(l.split(" ", 1) for l in open(sys.argv[2]).read().splitlines() if " " in l)
        exe, log = build(head["property"], head["variant"])
        missing = missing_symbols(log) if head["property"] == "P15" else []
        if head["class"] == "not-exported" and exe is not None:
            print("no violation")
            sys.exit(0)
        if exe is None and missing:
            print("VIOLATION property=%s class=not-exported %s" % (head["property"], " ".join(missing)))
            sys.exit(1)
        if exe is None:
            fail(log[-4000:])
        sys.exit(subprocess.run([exe, "replay", sys.argv[2]]).returncode)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = seed_of()
    conf = CONFIG[prop]
    t0 = time.time()
    variants = conf["variants"]
    work = os.path.join(VERIF, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(evidence):
        os.remove(evidence)
    with ThreadPoolExecutor(len(variants)) as ex:
        built = list(ex.map(lambda v: build(prop, v), variants))
    for v, (exe, log) in zip(variants, built):
        missing = missing_symbols(log) if prop == "P15" else []
        if exe is None and missing:
            not_exported(prop, v, tier, seed, missing, evidence, work, t0)
        if exe is None:
            fail("build of %s failed:\n%s" % (v, log[-6000:]))
    t_build = time.time() - t0
    print("property=%s tier=%s seed=%d variants=%s built in %.0f s" % (prop, tier, seed, ",".join(variants), t_build), flush=True)
    known = known_classes(prop)
    kfile = os.path.join(work, "known")
    open(kfile, "w").write("".join(k + "\n" for k, _ in known))
    results = []
    for v, (exe, _) in zip(variants, built):
        out = os.path.join(work, "out-%s.json" % v)
        cases = conf[tier]["cases"][variants.index(v)]
        wall = conf[tier]["wall"]
        cmd = [exe, "check", "--property", prop, "--tier", tier, "--seed", str(seed), "--variant", v, "--cases", str(cases),
               "--workers", str(min(8, os.cpu_count() or 8)), "--wall", str(wall), "--known", kfile, "--out", out, "--replays", work]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        text = r.stdout.replace("\0", "")
        if not os.path.exists(out):
            fail("the simulator gave no result (exit %d):\n%s" % (r.returncode, text[-3000:]))
        try:
            d = json.load(open(out), strict=False)
        except ValueError as e:
            fail("unreadable result of %s: %s" % (v, e))
        if r.returncode not in (0, 1):
            fail("the simulator failed (exit %d):\n%s" % (r.returncode, text[-3000:]))
        results.append((v, d))
        print("%s: %d cases in %.1f s, %d violation classes" % (v, d["counters"]["cases"], d["search_s"], len(d["violations"])), flush=True)
    report(prop, tier, seed, t0, t_build, results, known, evidence, work)


def not_exported(prop, v, tier, seed, missing, evidence, work, t0):
    path = os.path.join(work, "not-exported.replay")
    open(path, "w").write("property %s\nvariant %s\ntier %s\nclass not-exported\nend\n# the client of the C interface can't be linked: %s\n" % (prop, v, tier, " ".join(missing)))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "violations": 1, "wall_s": round(time.time() - t0, 1),
          "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "The client of the C interface couldn't be linked, no case was executed.", "samples": [{"not_exported": missing}]}}
    json.dump(ev, open(evidence, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    print("  class not-exported: the client of the C interface can't be linked, these functions are missing: %s" % " ".join(missing))
    sys.exit(1)


def report(prop, tier, seed, t0, t_build, results, known, evidence, work):
    cnt, ops, kn = {}, {}, {}
    for _, d in results:
        for k, n in d["counters"].items():
            cnt[k] = cnt.get(k, 0) + n
        for k, n in d["operations"].items():
            ops[k] = ops.get(k, 0) + n
        for k, n in d["known"].items():
            kn[k] = kn.get(k, 0) + n
    search = sum(d["search_s"] for _, d in results)
    per_hour = lambda n: int(n / max(search, 1e-3) * 3600)
    viol = [(v, x) for v, d in results for x in d["violations"]]
    conf = CONFIG[prop]
    samples = [s for _, d in results for s in d["samples"]][:6]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cnt["cases"],
            "distinct_nontrivial": sum(d["distinct"] for _, d in results),
            "rule": conf["rule"] + " Counted as distinct: cases which judged or compared at least one operation, told apart by a digest of everything they executed and observed (a bitmap of 4 million hashes per build variant, so collisions undercount).",
            "samples": samples,
            "simulated_runs": cnt["runs"],
            "simulated_runs_per_hour": per_hour(cnt["runs"]),
            "seeds_per_hour": per_hour(cnt["cases"]),
            "simulated_time_s": cnt["vtime_us"] / 1e6,
            "scheduler_steps": cnt["steps"],
            "distinct_interleavings": sum(d["interleavings"] for _, d in results),
            "distinct_interleavings_measure": "hash over the sequence of (thread, next thread, code location) of all switches of a run with at least one spawned thread",
            "distinct_abstract_states": sum(d["states"] for _, d in results),
            "distinct_abstract_states_measure": "hash over (operation, outcome, number space, domain, length and core limit of each operand, number of worker threads)",
            "faults_injected": {k: n for k, n in cnt.items() if k.startswith("fault_") and n > 0},
            "threads_spawned": cnt["threads"], "preemptions": cnt["preemptions"], "context_switches": cnt["switches"],
            "operations_executed": cnt["ops"], "operations_judged_by_the_model": cnt["checked"], "twin_comparisons": cnt["comparisons"],
            "operations_per_kind": ops,
            "counters": {k: n for k, n in cnt.items() if n > 0},
            "code_edges_covered": {v: "%d of %d" % (d["covered_edges"], d["edges"]) for v, d in results},
            "cases_repeated_to_prove_determinism": cnt["determinism_checks"],
            "known_findings_met": kn,
            "variants": {v: {"cases": d["counters"]["cases"], "planned": d["cases_planned"], "search_s": d["search_s"]} for v, d in results},
            "real_components": "basic_dsp_vector, basic_dsp_matrix, basic_dsp_interop (where used), rustfft, crossbeam_utils, num_cpus, the standard library's threads, locks and lazy initialisation: the real code",
            "stubs": "pthread_create/join/detach, futex, sched_yield, nanosleep, clock_gettime, sched_getaffinity, getrandom (simulated); the heap (real memory, simulated placement); user functions, storages and buffers of the workload",
            "build_s": round(t_build, 1),
        },
        "assumptions": conf.get("assumptions", []) + [
            "The reference model in /verif/harness/refmodel reads the documentation correctly.",
            "Interleavings are explored at the granularity of the control flow edges of the instrumented crates and of all calls into the operating system; weak memory effects are not simulated.",
            "A clean run is evidence for the executions it sampled, not a proof.",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viol),
    }
    tmp = evidence + ".tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, evidence)
    for k, text in known:
        print("KNOWN-FINDING: property=%s %s (class %s, met %d times)" % (prop, text, k, kn.get(k, 0)))
    if not viol:
        print("OK property=%s: %d cases, %d simulated runs, %d operations" % (prop, cnt["cases"], cnt["runs"], cnt["ops"]))
        sys.exit(0)
    lines = 0
    for v, x in viol:
        print("VIOLATION property=%s replay=%s" % (prop, x["replay"]))
        print("  class %s, case %d of %s (seed %d), met %d times: %s" % (x["class"], x["case"], v, seed, x["count"], x["detail"][:1500]))
        lines += 1
    sys.exit(1)


main()

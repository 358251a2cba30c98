#!/usr/bin/env python3
"""Builds the harness against /repo's working tree, runs the monitors of one property, writes its evidence.

    run.py setup
    run.py check <property>        (VERIF_SEED, VERIF_TIER)
    run.py replay <file>

Exit status of check: 0 the property held on everything explored, 1 violation, anything else is an
error of the check itself.
"""
import contextlib
import fcntl
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS")
TRIPLE = "x86_64-unknown-linux-gnu"
HARNESS = os.path.join(HERE, "harness")
PROBE = os.path.join(HERE, "probe")


class CheckError(Exception):
    """The check could not reach a verdict"""


class BuildError(CheckError):
    pass


CONFIGS = {
    # name: (crate directory, cargo arguments before `build`, cargo build arguments, RUSTFLAGS, binary path)
    "main": (HARNESS, [], ["--release"], "", "release/vh"),
    "asan": (HARNESS, ["+nightly"], ["--release", "--target", TRIPLE],
             "-Zsanitizer=address", TRIPLE + "/release/vh"),
    "tsan": (HARNESS, ["+nightly"], ["--release", "--target", TRIPLE, "-Zbuild-std"],
             "-Zsanitizer=thread", TRIPLE + "/release/vh"),
    # as a user would build it: without overflow checks and debug assertions
    "plain": (HARNESS, [], ["--profile", "plain"], "", "plain/vh"),
}
FEATURES = ("std_serde", "std", "libm", "libm_alloc", "libm_serde")  # the first is the default configuration
for feature in FEATURES:
    CONFIGS["probe-" + feature] = (PROBE, [], ["--release", "--features", feature], "", "release/probe")


def env_for(config, flags):
    env = dict(os.environ)
    for key in list(env):
        if key.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOCFLAGS", "MIRIFLAGS")) and key != "CARGO_HOME":
            del env[key]
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, config)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env["XDG_CACHE_HOME"] = os.path.join(BUILD, "cache")
    if flags:
        env["RUSTFLAGS"] = flags
    return env


def forget_repo_artifacts(config):
    """Forces the crate under test to be compiled again, whatever its modification times say"""
    # the second pattern is the layout of newer versions of cargo
    for pattern in ("**/.fingerprint/sgp4-*", "**/build/sgp4", "**/build/sgp4-*"):
        for path in glob.glob(os.path.join(BUILD, config, pattern), recursive=True, include_hidden=True):
            shutil.rmtree(path, ignore_errors=True)


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def build(config):
    directory, pre, args, flags, binary = CONFIGS[config]
    start = time.time()
    with lock(config):
        forget_repo_artifacts(config)
        done = subprocess.run(["cargo"] + pre + ["build", "--offline"] + args, cwd=directory,
                              env=env_for(config, flags), stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, timeout=1200)
    if done.returncode != 0:
        raise BuildError("building the %s harness failed:\n%s" % (config, done.stdout[-4000:]))
    return os.path.join(BUILD, config, binary), time.time() - start


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def crumbs(out):
    """Cases that were running when the harness died"""
    found = []
    try:
        with open(out + ".crumbs") as f:
            for line in f:
                fields = line.replace("\0", " ").split()
                if len(fields) == 2:
                    found.append({"shard": int(fields[0]), "index": int(fields[1])})
    except OSError:
        pass
    return found


def run_stage(prop, config, binary, tier, seed, scale=1.0, wall=300, cpu_limit=60, shards=64, env=None, label=None):
    label = label or config
    work = os.path.join(BUILD, "work")
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, "%s-%s-%d.json" % (prop, label, os.getpid()))
    for path in (out, out + ".crumbs"):
        if os.path.exists(path):
            os.remove(path)
    command = [binary, "run", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--scale", str(scale),
               "--wall", str(wall), "--cpu-limit", str(cpu_limit), "--shards", str(shards)]
    full_env = dict(os.environ)
    full_env.update(env or {})
    start = time.time()
    try:
        done = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                              timeout=wall + 300, env=full_env, cwd=work)
    except subprocess.TimeoutExpired:
        raise CheckError("%s %s: no result within the time limit" % (prop, label))
    result = {"stage": label, "wall_s": time.time() - start, "violations": []}
    try:
        sanitizer = None
        for marker in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "ERROR: LeakSanitizer"):
            if marker in done.stderr:
                sanitizer = done.stderr[done.stderr.index(marker):][:6000]
                break
        if sanitizer and "AddressSanitizer: out of memory" in sanitizer:
            raise CheckError("%s %s ran out of memory" % (prop, label))
        if os.path.exists(out):
            with open(out) as f:
                result.update(json.load(f))
        if sanitizer:
            result["violations"] = result["violations"] + [
                {"message": sanitizer.splitlines()[0], "detail": {"report": sanitizer, "running": crumbs(out)}}]
        elif done.returncode != 0:
            crash = -done.returncode in CRASHES and "memory allocation of" not in done.stderr
            if crash:
                result["violations"] = result["violations"] + [
                    {"message": "the process died with signal %d" % -done.returncode,
                     "detail": {"stderr": done.stderr[-2000:], "running": crumbs(out)}}]
            else:
                raise CheckError("%s %s exited with status %d:\n%s" % (prop, label, done.returncode, done.stderr[-3000:]))
        elif "evaluations" not in result:
            raise CheckError("%s %s left no result:\n%s" % (prop, label, done.stderr[-3000:]))
    finally:
        for path in (out, out + ".crumbs"):
            if os.path.exists(path):
                os.remove(path)
    return result


MIRI = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--"]


def miri_env():
    env = env_for("miri", "")
    # the clock and the files are needed by the monitor; floating-point results must repeat for it to compare them
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"
    return env


def build_miri():
    start = time.time()
    with lock("miri"):
        forget_repo_artifacts("miri")
        done = subprocess.run(MIRI + ["mini", "none"], cwd=HARNESS, env=miri_env(), stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1200)
    if done.returncode != 64 or "unknown property" not in done.stdout:
        raise BuildError("building the harness for the interpreter failed:\n%s" % done.stdout[-4000:])
    return time.time() - start


def miri_command(prop, native, seed, cases, corpus, number):
    """Arguments of one interpreted run; the inputs may be generated beforehand by the native harness"""
    command = MIRI + ["mini", prop, "--seed", str(seed), "--cases", str(cases)]
    path = None
    if corpus:
        work = os.path.join(BUILD, "work")
        os.makedirs(work, exist_ok=True)
        path = os.path.join(work, "corpus-%s-%d-%d" % (prop, number, os.getpid()))
        subprocess.run([native, "corpus", "--seed", str(seed), "--cases", str(cases), "--out", path], check=True, timeout=120)
        command += ["--corpus", path]
    return command, path


def run_miri(prop, native, seed, cases, corpus=False, processes=8, wall=600):
    """Interprets a part of the workload, detecting undefined behaviour and data races"""
    spent = build_miri()
    start = time.time()
    running = []
    result = {"stage": "miri", "violations": [], "evaluations": 0, "distinct": 0, "counters": {}, "build_s": spent}
    try:
        for number in range(processes):
            own = seed * 1000 + number
            command, path = miri_command(prop, native, own, cases, corpus, number)
            log = open(os.path.join(BUILD, "work", "miri-%s-%d-%d.log" % (prop, number, os.getpid())), "w+")
            process = subprocess.Popen(command, cwd=HARNESS, env=miri_env(), stdout=subprocess.PIPE, stderr=log,
                                       text=True, start_new_session=True)
            running.append((own, path, log, process))
        for own, path, log, process in running:
            try:
                out, _ = process.communicate(timeout=max(1.0, wall - (time.time() - start)))
            except subprocess.TimeoutExpired:
                raise CheckError("%s: the interpreter did not finish within %d s" % (prop, wall))
            log.seek(0)
            errors = log.read()
            origin = {"miri": {"seed": own, "cases": cases, "corpus": corpus}}
            if process.returncode != 0:
                if "error: Undefined Behavior" in errors:
                    report = errors[errors.index("error: Undefined Behavior"):][:6000]
                    result["violations"].append({"message": report.splitlines()[0], "detail": dict(origin, report=report)})
                    continue
                raise CheckError("%s: the interpreter exited with status %d:\n%s" % (prop, process.returncode, errors[-3000:]))
            one = json.loads(out.strip().splitlines()[-1])
            result["evaluations"] += one["evaluations"]
            result["distinct"] = max(result["distinct"], one["distinct"])
            for key, value in one["counters"].items():
                result["counters"][key] = result["counters"].get(key, 0) + value
            for violation in one["violations"]:
                result["violations"].append({"message": violation["message"], "detail": dict(origin, detail=violation["detail"])})
    finally:
        for _, path, log, process in running:
            if process.poll() is None:
                with contextlib.suppress(OSError):
                    os.killpg(process.pid, signal.SIGKILL)
                process.wait()
            log.close()
            os.remove(log.name)
            if path:
                os.remove(path)
    result["wall_s"] = time.time() - start
    return result


def probes(results):
    """Builds one program per feature configuration; a configuration that does not build is a violation"""
    paths = []
    for feature in FEATURES:
        try:
            binary, _ = build("probe-" + feature)
        except BuildError as error:
            if feature == FEATURES[0]:
                raise
            results.append({"stage": "probe-" + feature, "evaluations": 1, "distinct": 0, "violations": [
                {"message": "configuration %s does not build although the default one does" % feature,
                 "detail": {"report": str(error)}}]})
            return None
        paths.append("%s=%s" % (feature, binary))
    return {"VH_PROBES": ";".join(paths)}


def stages(prop, tier):
    """Harness stages of a property: (configuration, keyword arguments of run_stage)"""
    thorough = tier == "thorough"
    several = prop in ("C10", "C16", "C17")
    plan = [("main", {"wall": (380 if several else 780) if thorough else 240})]
    if prop in ("C10", "C16"):
        plan.append(("plain", {"wall": 200, "scale": 0.5 if not thorough else 0.2}))
        plan.append(("asan", {"wall": 200, "scale": 0.25 if not thorough else 0.1}))
    if prop == "C10":
        plan.append(("miri", {"cases": 1500 if thorough else 60, "corpus": True}))
    if prop == "C17":
        plan.append(("tsan", {"wall": 200, "scale": 0.08 if not thorough else 0.02}))
        plan.append(("miri", {"cases": 10 if thorough else 1}))
    return plan


ASSUMPTIONS = [
    "x86-64 Linux, IEEE 754 doubles, the installed rustc; optimised build with overflow checks and debug assertions",
]


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    evidence_path = os.path.join(EVIDENCE, prop + ".json")
    os.makedirs(EVIDENCE, exist_ok=True)
    if os.path.exists(evidence_path):
        os.remove(evidence_path)
    results = []
    env = None
    if prop == "C18":
        env = probes(results)
    for config, options in stages(prop, tier) if not results else []:
        if config == "miri":
            result = run_miri(prop, build("main")[0], seed, **options)
        else:
            binary, spent = build(config)
            result = run_stage(prop, config, binary, tier, seed, env=env, **options)
            result["build_s"] = spent
        results.append(result)
        if result["violations"]:
            break
    return conclude(prop, tier, seed, start, results)


def conclude(prop, tier, seed, start, results):
    violations = [dict(v, stage=r["stage"]) for r in results for v in r["violations"]]
    first = results[0]
    coverage = {
        "evaluations": sum(r.get("evaluations", 0) for r in results),
        "distinct_nontrivial": max(r.get("distinct", 0) for r in results),
        "rule": first.get("rule", ""),
        "samples": first.get("samples", [])[:12],
        "stages": [{k: r[k] for k in ("stage", "evaluations", "distinct", "complete", "counters", "maxima", "wall_s", "build_s")
                    if k in r} for r in results],
        "notable": {k: v for r in results for k, v in list(r.get("examples", {}).items())[:8]},
    }
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": ASSUMPTIONS, "violations": len(violations), "wall_s": round(time.time() - start, 3),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for line in known_findings(prop):
        print("KNOWN-FINDING: %s" % line)
    if not violations:
        print("%s held: %d evaluations, %d distinct, %.1f s" % (
            prop, coverage["evaluations"], coverage["distinct_nontrivial"], time.time() - start))
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    for n, violation in enumerate(violations[:5]):
        path = os.path.join(REPLAYS, "%s-%s-seed%d-%d.json" % (prop, tier, seed, n))
        with open(path, "w") as f:
            json.dump(dict({"property": prop, "tier": tier, "seed": seed}, **violation), f, indent=1)
            f.write("\n")
        print("%s: %s" % (prop, violation["message"][:500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def known_findings(prop):
    """Lines `finding: property=<id> <what fails>`: defects that were found and not repaired"""
    found = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    found.append(line[len("finding: "):].strip())
    return found


def replay(path):
    with open(path) as f:
        record = json.load(f)
    stage = record.get("stage", "main")
    if stage.startswith("probe-"):
        build(stage)
        print("the configuration builds")
        return 0
    binary, _ = build(stage if stage in CONFIGS else "main")
    if stage == "miri":
        build_miri()
        origin = record["detail"]["miri"]
        command, corpus = miri_command(record["property"], binary, origin["seed"], origin["cases"], origin["corpus"], 0)
        done = subprocess.run(command, cwd=HARNESS, env=miri_env(), stdout=subprocess.PIPE, text=True)
        if corpus:
            os.remove(corpus)
        print(done.stdout)
        return 1 if done.returncode != 0 or '"violations":[]' not in done.stdout else 0
    env = dict(os.environ)
    if record["property"] == "C18":
        env.update(probes([]) or {})
    return subprocess.run([binary, "replay", os.path.abspath(path)], env=env).returncode


def main():
    command = sys.argv[1] if len(sys.argv) > 1 else ""
    try:
        if command == "setup":
            for config in CONFIGS:
                _, spent = build(config)
                print("built %s in %.1f s" % (config, spent))
            print("built miri in %.1f s" % build_miri())
            return 0
        if command == "check":
            return check(sys.argv[2])
        if command == "replay":
            return replay(sys.argv[2])
    except CheckError as error:
        print("check error: %s" % error, file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as error:
        print("check error: %s" % error, file=sys.stderr)
        return 2
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    try:
        status = main()
    except Exception as error:  # a defect of the check is not a verdict
        import traceback
        traceback.print_exc()
        status = 2
    sys.exit(status)

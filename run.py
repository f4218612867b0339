#!/usr/bin/env python3
"""Build the monitors against /repo's working tree and run one check.

usage: run.py setup
       run.py <property> [quick|thorough]
       run.py replay <file>

exit 0: held; exit 1: violated (with a VIOLATION line); exit 2: no verdict.
"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
OUT = os.path.join(HERE, "out")
EVIDENCE = os.path.join(HERE, "evidence")
SRC = "/repo/src"
TRIPLE = "x86_64-unknown-linux-gnu"
STABLE = "stable-x86_64-unknown-linux-gnu"

# name -> how the monitors are built
#   checked: overflow checks and debug assertions; release: neither
BUILDS = {
    "checked": dict(),
    "release": dict(args=["--release"]),
    "asan": dict(toolchain="nightly", flags="-Zsanitizer=address", target=True),
    "tsan": dict(toolchain="nightly", flags="-Zsanitizer=thread", target=True,
                 args=["-Zbuild-std"]),
}


def env(build):
    b = BUILDS[build]
    e = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC",
              "CARGO_BUILD_RUSTFLAGS", "MIRIFLAGS"):
        e.pop(k, None)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
             RUSTUP_TOOLCHAIN=b.get("toolchain", STABLE))
    if "flags" in b:
        e["RUSTFLAGS"] = b["flags"]
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, build)
    return e


def forget(build):
    # cargo compares mtimes only: forget its verdict on the code under test.
    for pat in ("*/.fingerprint/ur20-*", TRIPLE + "/*/.fingerprint/ur20-*",
                "miri/" + TRIPLE + "/*/.fingerprint/ur20-*"):
        for d in glob.glob(os.path.join(TARGET, build, pat)):
            shutil.rmtree(d, ignore_errors=True)


def cargo(build, features=(), fresh=True):
    """returns (binary or None, compiler output)"""
    b = BUILDS[build]
    if fresh:
        forget(build)
    cmd = ["cargo", "build", "--offline", "--locked"] + b.get("args", [])
    if b.get("target"):
        cmd += ["--target", TRIPLE]
    if features:
        cmd += ["--features", ",".join(features)]
    p = subprocess.run(cmd, cwd=HARNESS, env=env(build), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None, p.stdout
    d = os.path.join(TARGET, build)
    if b.get("target"):
        d = os.path.join(d, TRIPLE)
    d = os.path.join(d, "release" if "--release" in b.get("args", []) else "debug")
    return os.path.join(d, "urmon"), p.stdout


def die(msg):
    print("INCONCLUSIVE: " + msg, file=sys.stderr)
    sys.exit(2)


def violation(prop, text):
    os.makedirs(OUT, exist_ok=True)
    p = os.path.join(OUT, prop + "-replay.txt")
    with open(p, "w") as f:
        f.write(text)
    print("VIOLATION property=%s replay=%s" % (prop, p))
    sys.exit(1)


def run(build, exe, prop, tier, seed, budget, extra=(), evidence=None, e=None, limit=780):
    """One monitored run; returns its exit code and evidence."""
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = os.path.join(OUT, "%s-%s.json" % (prop, build))
    if os.path.exists(ev):
        os.remove(ev)
    cmd = [exe, prop, "--tier", tier, "--seed", str(seed), "--src", SRC, "--out", OUT,
           "--evidence", ev, "--build", build, "--budget", str(budget)] + list(extra)
    with subprocess.Popen(cmd, cwd=HERE, env=e or os.environ, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, errors="replace",
                          start_new_session=True) as c:
        try:
            out, err = c.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            # The monitor runs in a child process of its own.
            os.killpg(c.pid, signal.SIGKILL)
            out = None
    if out is None:
        die("%s [%s]: no result within %d s" % (prop, build, limit))
    p = subprocess.CompletedProcess(cmd, c.returncode, out, err)
    sys.stdout.write(p.stdout)
    sys.stderr.write(p.stderr[-6000:])
    sys.stdout.flush()
    data = None
    if os.path.exists(ev):
        with open(ev) as f:
            data = json.load(f)
        os.remove(ev)
    return p, data


def not_send(out):
    return re.search(r"error\[E0277\].*(cannot be sent|cannot be shared) between threads", out)


def check(prop, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    features = ("send",) if prop == "C23" else ()
    parts = []

    def finish():
        if parts:
            write_evidence(prop, tier, seed, parts, time.time() - t0)

    # Build all variants first: (build, tier of its workload, budget, arguments)
    plan = [("checked", tier, 330 if thorough else 60, [])]
    plan.append(("release", tier, 120 if thorough else 40,
                 ["--scale", "2"] if not thorough else []))
    if prop == "C23":
        plan.append(("tsan", tier, 120 if thorough else 60, ["--scale", "10"]))
    if thorough:
        plan.append(("asan", tier, 60, ["--scale", "4"]))
    exes = {}
    with concurrent.futures.ThreadPoolExecutor() as pool:
        built = {b: pool.submit(cargo, b, features) for b, *_ in plan}
        built = {b: f.result() for b, f in built.items()}
    for build, *_ in plan:
        exe, log = built[build]
        if exe is None and build == "checked":
            if features:
                plain, _ = cargo(build)
                if plain and not_send(log):
                    violation(prop, "property=%s\ncampaign=compile\n\na Coupler cannot be moved "
                              "to another thread:\n%s" % (prop, log))
            print(log[-4000:], file=sys.stderr)
            die("the monitors do not build")
        if exe is None:
            # A sanitizer which cannot be built here adds nothing.
            print("note: no %s build: %s" % (build, log[-300:]), file=sys.stderr)
        exes[build] = exe
    code = 0
    for build, t, budget, extra in plan:
        exe = exes[build]
        if exe is None:
            continue
        e = env(build)
        if build == "tsan":
            e["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66"
        if build == "asan":
            e["ASAN_OPTIONS"] = "halt_on_error=1 exitcode=66 detect_leaks=1"
        # Other cases in every build.
        s = seed if build == "checked" else seed ^ (0x5EED0000 + len(parts))
        p, data = run(build, exe, prop, t, s, budget, extra, e=e)
        if data:
            parts.append((build, data))
        if p.returncode == 66 and re.search(r"(ERROR|WARNING): (Thread|Address|Leak)Sanitizer", p.stderr):
            finish()
            violation(prop, "property=%s\ncampaign=%s\nseed=%d\ntier=%s\n\n%s" % (
                prop, build, seed, tier, p.stderr[:20000]))
        if p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout:
            finish()
            sys.exit(1)
        if p.returncode != 0:
            code = 2
            break
    finish()
    sys.exit(code)


def write_evidence(prop, tier, seed, parts, wall):
    """One evidence file for all builds; a case is counted once per build."""
    cov = dict(parts[0][1]["coverage"])
    cov["builds"] = {b: dict(evaluations=d["coverage"]["evaluations"],
                             distinct_nontrivial=d["coverage"]["distinct_nontrivial"],
                             wall_s=d["wall_s"]) for b, d in parts}
    cov["campaigns"] = {b: d["coverage"]["campaigns"] for b, d in parts}
    cov["observed"] = {b: d["coverage"]["observed"] for b, d in parts}
    cov["evaluations"] = sum(d["coverage"]["evaluations"] for _, d in parts)
    # Enumerated cases are the same in every build.
    cov["distinct_nontrivial"] = max(d["coverage"]["distinct_nontrivial"] for _, d in parts)
    cov["rule"] += "; run once per build with its own random cases, distinct cases are those of one build"
    cov.pop("build", None)
    doc = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
               assumptions=parts[0][1]["assumptions"], wall_s=round(wall, 2),
               violations=sum(d["violations"] for _, d in parts))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "setup":
        for build, feats in (("checked", ()), ("release", ()), ("checked", ("send",)),
                             ("release", ("send",)), ("tsan", ("send",))):
            exe, log = cargo(build, feats, fresh=False)
            if exe is None:
                print(log)
                sys.exit(0 if build == "tsan" else 1)
        return
    if a[0] == "replay":
        exe, log = cargo("checked", ("send",))
        if exe is None:
            exe, log = cargo("checked")
        if exe is None:
            die(log)
        with open(a[1]) as f:
            prop = re.search(r"^property=(\S+)", f.read(), re.M).group(1)
        p = subprocess.run([exe, prop, "--replay", a[1], "--src", SRC, "--out", "/tmp"],
                           cwd=HERE, env=env("checked"))
        sys.exit(p.returncode)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    check(prop, tier, seed)


main()

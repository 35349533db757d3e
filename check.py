#!/usr/bin/env python3
"""Runs one check:   check.py C04 quick|thorough        (exit 0: held; 1: VIOLATION; 2: no verdict)
Replays a finding:  check.py replay FILE
Builds everything:  check.py setup

The explorers are Rust binaries in the packages beside this file. They are rebuilt from /repo's
working tree on every run. This script builds, runs, attributes crashes, compares violations with
the known findings and writes the evidence and replay files."""
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
# Seconds for a whole check. Quick explorations end long before on an idle machine.
TOTAL = 780
STARTED = time.time()

# property: (package, generator arguments, crash is a violation, also thorough generator arguments)
# `extra` packages are further binaries whose results are added.
PROPS = {}


def prop(pid, packages, crash=True, quick=("release",), thorough=("release", "checked"), title=""):
    PROPS[pid] = dict(packages=packages, crash=crash, quick=quick, thorough=thorough)


prop("C01", ["codec"])
prop("C02", ["codec"], crash=False)
prop("C03", ["codec"])
prop("C04", ["codec"], crash=False)
prop("C05", ["codec"], quick=("checked",))
prop("C06", ["codec"], crash=False)
prop("C07", ["codec"])
prop("C10", ["codec"])
prop("C17", ["codec"])
prop("C19", ["codec"])
prop("C08", ["derive"])
prop("C15", ["derive"])
prop("C09", ["layout"])
prop("C16", ["layout"])
prop("C11", ["bits"])
prop("C12", ["bits"])
prop("C13", ["bits"], quick=("release", "checked"))
prop("C14", ["bits"])
prop("C18", ["bits"])
prop("C20", ["arb"])


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "CARGO_ENCODED", "RUSTFLAGS", "RUSTC", "RUSTDOCFLAGS")):
            del e[k]
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0")
    return e


def fail(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)


def log(msg):
    print(msg, flush=True)


def build(package, profile, pid, tier):
    """Builds the package's binary from /repo's current tree. Returns (path, None) or (None, log)."""
    pdir = os.path.join(HERE, package)
    gen = os.path.join(pdir, "gen.py")
    if os.path.exists(gen):
        p = subprocess.run([sys.executable, gen, pid, tier], cwd=pdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            fail(f"generator of {package} failed:\n{p.stdout}")
    # Never trust time stamps for the code under test.
    for d in ("release", "checked"):
        for pat in ("ethereum_ssz*", "ethereum-ssz*"):
            for f in glob.glob(os.path.join(TARGET, d, ".fingerprint", pat)):
                shutil.rmtree(f, ignore_errors=True)
    t = time.time()
    cmd = ["cargo", "build", "--offline", "--bin", package, "--profile", profile]
    p = subprocess.run(cmd, cwd=pdir, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return None, p.stdout
    log(f"built {package} ({profile}) in {time.time() - t:.0f} s")
    return os.path.join(TARGET, profile, package), None


def limits():
    # Nothing here should need more than this, whatever the code under test does.
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (26 << 30, 26 << 30))


def work(binary, pid, tier, extra, timeout):
    try:
        p = subprocess.run(
            [binary, "--prop", pid, "--tier", tier] + extra,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            errors="replace",
            timeout=timeout,
            env=env(),
            preexec_fn=limits,
        )
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else str(e.stdout)


def in_flight(slots):
    """Cases being run when the process died."""
    b = open(slots, "rb").read()
    out = []
    for i in range(0, len(b), 64):
        w = struct.unpack("<8Q", b[i : i + 64])
        if w[0] == 1:
            out.append((w[1], w[2]))
    return out


def field(out, word):
    for line in out.splitlines():
        if line.startswith(word + " "):
            parts = line[len(word) + 1 :].split(" | ")
            return parts
    return None


def crash_kind(rc):
    if rc == 97:
        return "does not return (more than 40 s)"
    if isinstance(rc, int) and rc < 0:
        import signal

        try:
            name = signal.Signals(-rc).name
        except ValueError:
            name = str(-rc)
        return f"the process dies with {name}"
    return f"the process exits with {rc}"


def left(later):
    """Seconds an exploration may take, when `later` builds and explorations are to follow."""
    now = TOTAL - (time.time() - STARTED)
    return max(20, int((now - 40 * later) / (1 + later)))


def explore(binary, package, profile, pid, tier, crash, later):
    tmp = os.path.join(TARGET, f"run-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    try:
        slots, outf = os.path.join(tmp, "slots"), os.path.join(tmp, "out.json")
        extra = []
        while True:
            rc, out = work(binary, pid, tier, ["--slots", slots, "--out", outf, "--cap", str(left(later))] + extra, left(later) + 80)
            if rc in (0, 1):
                return json.load(open(outf))
            if rc == "timeout" or rc == 3 or rc == 101:
                fail(f"{package} for {pid} gave no verdict ({rc}):\n{out[-4000:]}")
            # The code under test took the process down: which case was it?
            vio, skip = [], []
            for u, ix in in_flight(slots):
                rc2, out2 = work(binary, pid, tier, ["--only", f"{u}:{ix}"], 120)
                case = field(out2, "CASE")
                if rc2 in (0, 1, 3, 101, "timeout") or not case:
                    continue
                asked = re.search(r"memory allocation of (\d+) bytes failed", out2)
                if pid == "C06" and asked:
                    crash = True
                skip.append(f"{u}:{ix}")
                vio.append(
                    {"unit": case[0], "unit_no": u, "index": ix, "data": " | ".join(case[1:]), "what": (f"decoding requests {asked[1]} bytes of heap at once: " if asked else "") + crash_kind(rc2)}
                )
            if not vio:
                fail(f"{package} for {pid}: {crash_kind(rc)}, and no case in flight reproduces it:\n{out[-4000:]}")
            if crash:
                return {"states": 0, "transitions": 0, "traces": 0, "units": 0, "capped_units": 0, "wall_s": 0, "counters": {"aborted run": 1}, "notes": [], "samples": [], "violations": vio}
            # An abort on invalid input is another property's matter: go on without that unit's rest.
            extra = merge_skip(extra, vio)
            if len(extra) > 1 and extra[1].count(",") > 40:
                fail(f"{package} for {pid}: the code under test keeps aborting:\n{out[-2000:]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def merge_skip(extra, vio):
    old = extra[1].split(",") if extra else []
    return ["--skip", ",".join(old + [f"{v['unit_no']}:{v['index']}" for v in vio])]


def known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("{"):
            k = json.loads(line)
            if k["property"] == pid:
                out.append(k)
    return out


def main(pid, tier):
    start = time.time()
    if pid not in PROPS:
        fail(f"unknown property {pid}")
    P = PROPS[pid]
    total = {"states": 0, "transitions": 0, "traces": 0, "units": 0, "capped_units": 0}
    runs, samples, counters, violations = [], [], {}, []
    for nth, profile in enumerate(P[tier]):
        for package in P["packages"]:
            binary, err = build(package, profile, pid, tier)
            if err:
                # Definitions with an SSZ meaning that the derive macros no longer compile.
                v = None
                if package == "derive":
                    import importlib.util

                    spec = importlib.util.spec_from_file_location("derive_gen", os.path.join(HERE, "derive", "gen.py"))
                    m = importlib.util.module_from_spec(spec)
                    sys.argv = ["gen.py"]
                    spec.loader.exec_module(m)
                    v = m.blame(pid, tier, err, env(), TARGET, profile)
                if not v:
                    fail(f"{package} does not build against /repo:\n{err[-6000:]}")
                violations.append(dict(v, package=package, profile=profile))
                continue
            r = explore(binary, package, profile, pid, tier, P["crash"], len(P[tier]) - nth - (0 if pid == "C08" else 1))
            if package == "derive" and pid == "C08":
                import importlib.util

                spec = importlib.util.spec_from_file_location("derive_gen", os.path.join(HERE, "derive", "gen.py"))
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                if profile == P[tier][0]:
                    n, vs = m.compile_verdicts(tier, env(), TARGET, profile)
                    r["counters"]["definitions compiled or rejected by rustc"] = n
                    r["states"] += n
                    r["transitions"] += n
                    r["traces"] += n
                    r["violations"] += vs
            for k in total:
                total[k] += r[k]
            for k, n in r["counters"].items():
                counters[k] = counters.get(k, 0) + n
            samples += r["samples"]
            runs.append({"package": package, "profile": profile, "wall_s": r["wall_s"], "states": r["states"], "capped_units": r["capped_units"]})
            violations += [dict(v, package=package, profile=profile) for v in r["violations"]]
    # Known findings.
    fresh, met = [], set()
    for v in violations:
        for i, k in enumerate(known(pid)):
            if k["unit"] == v["unit"] and k["data"] == v["data"]:
                met.add(i)
                break
        else:
            fresh.append(v)
    for i, k in enumerate(known(pid)):
        if i in met:
            log(f"KNOWN-FINDING: property={pid} {k['what']}")
    wall = time.time() - start
    note = json.load(open(os.path.join(HERE, "bounds.json"))).get(pid, {})
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": total["states"],
            "transitions": total["transitions"],
            "traces_validated_against_impl": total["traces"],
            "samples": samples[:24],
            "units": total["units"],
            "units_stopped_by_time_cap": total["capped_units"],
            "exhaustive": total["capped_units"] == 0 and not fresh,
            "explanation": note.get("covers", ""),
            "bounds": note.get(tier, note.get("bounds", "")),
            "counters": counters,
            "runs": runs,
        },
        "assumptions": note.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    log(
        f"{pid} {tier}: {total['states']} states, {total['transitions']} transitions, "
        f"{total['traces']} traces on the real code, {total['units']} units"
        + (f" ({total['capped_units']} stopped by the time cap)" if total["capped_units"] else "")
        + f", {wall:.0f} s"
    )
    if not fresh:
        if total["states"] == 0:
            fail("nothing was explored")
        sys.exit(0)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for v in fresh[:10]:
        key = hashlib.sha256(f"{v['unit']}|{v['data']}".encode()).hexdigest()[:12]
        path = os.path.join(HERE, "replays", f"{pid}-{key}.json")
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, tier=tier), f, indent=1)
        log(f"  {v['unit']} | {v['data'][:400]}\n    {v['what'][:600]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
    sys.exit(1)


def replay(path):
    v = json.load(open(path))
    pid, tier = v["property"], v["tier"]
    log(f"{pid}: {v['unit']} | {v['data']}\n  recorded: {v['what']}")
    binary, err = build(v["package"], v["profile"], pid, tier)
    if err:
        print(err)
        sys.exit(1)
    if v.get("unit_no") is None:
        fail("this finding is about compiling a definition; run the check")
    rc, out = work(binary, pid, tier, ["--only", f"{v['unit_no']}:{v['index']}"], 300)
    print(out)
    case = field(out, "CASE")
    if not case or case[0] != v["unit"]:
        fail("the case numbering has changed; run the check")
    if rc == 0:
        log("does not fail now")
        sys.exit(0)
    if rc != 1:
        log(crash_kind(rc))
    sys.exit(1)


def setup():
    for package in sorted({p for P in PROPS.values() for p in P["packages"]}):
        if os.path.exists(os.path.join(HERE, package, "Cargo.toml")):
            pid = next(i for i, P in PROPS.items() if package in P["packages"])
            _, err = build(package, "release", pid, "quick")
            if err:
                fail(err[-4000:])
    sys.exit(0)


if __name__ == "__main__":
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".check.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if sys.argv[1] == "replay":
        replay(sys.argv[2])
    elif sys.argv[1] == "setup":
        setup()
    else:
        main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))

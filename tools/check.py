#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's working tree: check.py ID [quick|thorough] [--only N]

exit 0: held on everything observed   exit 1: VIOLATION   exit 2: no verdict (build or harness error)
"""
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mirror

BUILD = os.path.join(VERIF, "build")
FULL = {"C13", "C14", "C15", "C18"}          # need the mesher, the file formats or the program
ENV = dict(os.environ)
ENV.update(
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
    PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"), RUST_BACKTRACE="0",
)
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_INCREMENTAL", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
RUSTFLAGS = "--cfg bugi_verif -Awarnings"


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *_):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build(mode, binary, dest, variant="plain"):
    """Builds a harness binary against a fresh mirror of /repo and copies it to dest."""
    base = os.path.join(BUILD, mode)
    harness = os.path.join(VERIF, "harness", mode)
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(base, "target-" + variant))
    cmd = ["cargo", "build", "--offline", "--release", "--bin", binary]
    out = os.path.join(env["CARGO_TARGET_DIR"], "release", binary)
    if variant == "asan":
        env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
        env["RUSTFLAGS"] = RUSTFLAGS + " -Zsanitizer=address -Cforce-frame-pointers=yes"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        out = os.path.join(env["CARGO_TARGET_DIR"], "x86_64-unknown-linux-gnu", "release", binary)
    else:
        env["RUSTFLAGS"] = RUSTFLAGS
    if variant != "plain":  # as users run it: no debug assertions, no overflow checks
        cmd += ["--config", "profile.release.package.bugi.debug-assertions=false",
                "--config", "profile.release.package.bugi.overflow-checks=false",
                "--config", "profile.release.debug-assertions=false", "--config", "profile.release.overflow-checks=false"]
    with Lock(mode):
        mirror.mirror(mode, os.path.join(base, "bugi"))
        lock = os.path.join(harness, "Cargo.lock")
        shutil.copyfile(os.path.join(HERE, "Cargo.lock.bugi"), os.path.join(base, "bugi", "Cargo.lock"))
        if mode == "full":
            mirror.copy_tree(os.path.join(VERIF, "harness", "spacemath"), os.path.join(base, "spacemath"))
        # built from a copy, so that cargo writes nothing among the committed files
        work = os.path.join(BUILD, mode, "h", "h")
        mirror.copy_tree(harness, work)
        text = open(os.path.join(harness, "Cargo.toml")).read()
        text = text.replace("../../build/%s/" % mode, "../../").replace("../core", "../core")
        write_if_changed(os.path.join(work, "Cargo.toml"), text)
        if mode == "full":
            core = os.path.join(BUILD, mode, "h", "core")
            mirror.copy_tree(os.path.join(VERIF, "harness", "core"), core)
            text = open(os.path.join(VERIF, "harness", "core", "Cargo.toml")).read()
            write_if_changed(os.path.join(core, "Cargo.toml"), text.replace("../../build/core/", "../../"))
        r = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            raise NoVerdict("build failed:\n" + r.stdout[-6000:])
        shutil.copy2(out, dest)
        if mode == "full":
            r = subprocess.run(["cargo", "build", "--offline", "--release", "-p", "bugi", "--bin", "bugi"],
                               cwd=os.path.join(base, "bugi"), env=dict(env, CARGO_TARGET_DIR=os.path.join(base, "target-cli")),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800) if binary == "c18" else None
            if r is not None:
                if r.returncode != 0:
                    raise NoVerdict("build of the program failed:\n" + r.stdout[-6000:])
                shutil.copy2(os.path.join(base, "target-cli", "release", "bugi"), os.path.join(os.path.dirname(dest), "bugi"))


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def launch(exe, scratch, seed, tier, extra, wall, cpu=None):
    os.makedirs(scratch, exist_ok=True)
    out = os.path.join(scratch, "out.json")
    if os.path.exists(out):
        os.remove(out)
    err = os.path.join(scratch, "stderr")
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--scratch", scratch] + extra

    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

    # the code under test writes progress lines to stderr; only its tail is of interest
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", VERIF_BIN=os.path.dirname(exe))
    with open(err, "wb") as e:
        tail = subprocess.Popen(["tail", "-c", "20000"], stdin=subprocess.PIPE, stdout=e)
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=tail.stdin, preexec_fn=limits, cwd=scratch, env=env)
        tail.stdin.close()
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
        tail.wait()
    text = open(err, "rb").read().decode("utf-8", "replace")
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError:
            data = None
    return rc, data, text


def run_stage(exe, scratch, seed, tier, extra, secs):
    """Runs all cases. After an abort or a hang the case responsible is run again alone: only a failure
    that repeats by itself is evidence. Returns (record, violations)."""
    rc, data, err = launch(exe, scratch, seed, tier, extra + ["--secs", str(secs)], wall=secs + 120)
    if rc == 0 and data is not None:
        return data, []
    suspects = []
    if rc == 97:
        suspects = [int(open(os.path.join(scratch, "hang")).read())]
    elif rc != "timeout" and (rc < 0 or rc == 134):
        raw = open(os.path.join(scratch, "progress"), "rb").read()
        suspects = [int.from_bytes(raw[i : i + 8], "little") - 1 for i in range(0, len(raw), 8)]
        suspects = [s for s in suspects if s >= 0]
    found = []
    for s in suspects:
        again = scratch + "-again"
        shutil.rmtree(again, ignore_errors=True)
        rc2, d2, err2 = launch(exe, again, seed, tier, extra + ["--only", str(s)], wall=300, cpu=60)
        note = "\n".join(l for l in err2.splitlines() if not l.startswith(("beginning", "computing", "reordering", "decomposition", "substitut", "dense", "iteration", "converged")))[-1500:]
        if rc2 == -signal.SIGXCPU or rc2 == -signal.SIGKILL and rc == 97:
            found.append({"case": s, "key": "hang", "msg": "the case does not finish within 60 s of processor time", "what": note})
        elif rc2 != "timeout" and (rc2 in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, 134)):
            found.append({"case": s, "key": "abort", "msg": "process ended by signal %s" % rc2, "what": note})
        elif rc2 == 0 and d2 and d2["violations"]:
            found += d2["violations"]
    if not found:
        raise NoVerdict("harness ended with %s; suspects %s did not repeat it\n%s" % (rc, suspects, err[-3000:]))
    return data, found


def load_known():
    return json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = "quick"
    extra = []
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a in ("--only", "--cases"):
            extra += [a, args.pop(0)]
        elif a == "--seed":
            os.environ["VERIF_SEED"] = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = check(pid, tier, seed, extra, work, t0)
    except NoVerdict as e:
        say("NO VERDICT for %s: %s" % (pid, e))
        code = 2
    except subprocess.TimeoutExpired as e:
        say("NO VERDICT for %s: %s" % (pid, e))
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


STAGES = {
    # property: list of (build variant, extra args quick, extra args thorough)
    "C04": [("plain", [], []), ("asan", ["--cases", "150000"], [])],
}


def check(pid, tier, seed, extra, work, t0):
    mode = "full" if pid in FULL else "core"
    binary = pid.lower()
    secs = 240 if tier == "quick" else 3000
    records, violations = [], []
    for variant, q, t in STAGES.get(pid, [("plain", [], [])]):
        exe = os.path.join(work, variant + "-" + binary)
        tb = time.time()
        build(mode, binary, exe, variant)
        tb = time.time() - tb
        data, found = run_stage(exe, os.path.join(work, "s-" + variant), seed, tier, (q if tier == "quick" else t) + extra,
                                min(secs, 150) if tier == "quick" and pid in STAGES else secs)
        for f in found:
            f["variant"] = variant
        violations += found
        if data:
            for v in data["violations"]:
                v["variant"] = variant
            violations += data["violations"]
            data["variant"], data["build_s"] = variant, round(tb, 1)
            records.append(data)
    if tier == "thorough" and pid == "C04" and not extra:
        import miri
        rec, found = miri.run(VERIF, BUILD, ENV, seed, work)
        records.append(rec)
        violations += found

    known = {(k["property"], k["key"]) for k in load_known() if k["status"] == "known"}
    fresh = [v for v in violations if (pid, v["key"]) not in known]
    old = sorted({v["key"] for v in violations if (pid, v["key"]) in known})

    cov = {"evaluations": sum(r["evaluations"] for r in records), "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in records[:1]),
           "rule": records[0]["rule"] if records else "", "samples": [s for r in records for s in r["samples"]][:6],
           "observed": {}, "builds": [{k: r.get(k) for k in ("variant", "evaluations", "planned", "timed_out", "wall_s", "build_s", "slowest_case_s", "violation_counts")} for r in records]}
    for r in records:
        for k, v in r["observed"].items():
            cov["observed"][k] = cov["observed"].get(k, 0) + v
    if not extra:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ASSUME.get(mode, []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in old:
        text = next(x["what"] for x in load_known() if x["property"] == pid and x["key"] == k)
        say("KNOWN-FINDING: property=%s [%s] %s" % (pid, k, text))
    if fresh:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        path = os.path.join(BUILD, "replay", "%s-%s.json" % (pid, seed))
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "violations": fresh,
                       "replay": "VERIF_SEED=%d python3 tools/check.py %s %s --only %d" % (seed, pid, tier, fresh[0]["case"])}, f, indent=1)
        for v in fresh[:6]:
            say("[%s] case %s (%s): %s" % (v["key"], v["case"], v.get("variant"), v["msg"][:700]))
            say("    " + v["what"][:900])
        say("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    errors = [e for r in records for e in r.get("errors", [])]
    if errors:
        raise NoVerdict("the harness itself failed: " + errors[0])
    missing = [m for r in records for m in r.get("missing", [])]
    if missing and not extra:
        raise NoVerdict("too little was observed: no %s" % ", ".join(missing))
    say("%s held: %d cases, %d distinct non-trivial, %.0f s%s" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0,
        "".join("; %s %d" % x for x in sorted(cov["observed"].items())[:12])))
    return 0


ASSUME = {
    "core": ["the parts of bugi that need the missing crate spacemath are left out of this build; the rest is compiled from /repo as it is",
             "reference computations of the harness are right; tolerances sit far above rounding error and far below the effect of a defect"],
    "full": ["the missing crate spacemath is replaced by the stand-in in harness/spacemath, written from its uses in bugi",
             "reference computations of the harness are right; tolerances sit far above rounding error and far below the effect of a defect"],
}

if __name__ == "__main__":
    main()

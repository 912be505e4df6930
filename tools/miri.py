"""The histories of C04 once more in Miri, which sees undefined behaviour that leaves no trace in the results."""
import json, os, subprocess, time

PROCS, CASES, SECS = 8, 120, 1500


def run(VERIF, BUILD, ENV, seed, work):
    from check import RUSTFLAGS, Lock, NoVerdict
    here = os.path.join(BUILD, "core", "h", "h")
    env = dict(ENV, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", RUSTFLAGS=RUSTFLAGS, CARGO_TARGET_DIR=os.path.join(BUILD, "core", "target-miri"),
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks")
    t0 = time.time()

    def cmd(k, cases):
        s = os.path.join(work, "miri-%d" % k)
        os.makedirs(s, exist_ok=True)
        return ["cargo", "miri", "run", "--offline", "--bin", "c04", "--", "--seed", str(seed * 1000 + k), "--cases", str(cases), "--threads", "1",
                "--hang", "1000000", "--secs", str(SECS), "--scratch", s, "--out", os.path.join(s, "out")], s

    with Lock("core"):
        c, s = cmd(999, 1)  # builds
        r = subprocess.run(c, cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1800)
        if not os.path.exists(os.path.join(s, "out")) and "Undefined Behavior" not in r.stdout:
            raise NoVerdict("miri: " + r.stdout[-4000:])
    procs = []
    for k in range(PROCS):
        c, s = cmd(k, CASES)
        f = open(os.path.join(s, "log"), "w")
        procs.append((k, s, subprocess.Popen(c, cwd=here, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT)))
    rec = {"variant": "miri", "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "observed": {}, "violations": [], "errors": [], "missing": []}
    found = []
    for k, s, p in procs:
        try:
            p.wait(timeout=2 * SECS)
        except subprocess.TimeoutExpired:
            p.kill()
        text = open(os.path.join(s, "log"), errors="replace").read()
        out = os.path.join(s, "out")
        if "Undefined Behavior" in text:
            i = text.index("Undefined Behavior")
            prog = open(os.path.join(s, "progress"), "rb").read()
            case = int.from_bytes(prog[:8], "little") - 1 if prog else -1
            found.append({"case": case, "key": "undefined behaviour", "msg": text[i : i + 600], "what": "miri, seed %d" % (seed * 1000 + k), "variant": "miri"})
        elif os.path.exists(out):
            d = json.load(open(out))
            rec["evaluations"] += d["evaluations"]
            for v in d["violations"]:
                v["variant"] = "miri"
            found += d["violations"]
            for n, v in d["observed"].items():
                rec["observed"]["miri: " + n] = rec["observed"].get("miri: " + n, 0) + v
        else:
            raise NoVerdict("miri ended without a result:\n" + text[-3000:])
    rec["wall_s"] = round(time.time() - t0, 1)
    return rec, found

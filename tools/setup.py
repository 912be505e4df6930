#!/usr/bin/env python3
"""Checks that what the monitors need is installed; the checks build the rest from /repo themselves."""
import os, subprocess, sys
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), RUSTC_WRAPPER="")
for tc in ("stable-x86_64-unknown-linux-gnu", "nightly-x86_64-unknown-linux-gnu"):
    r = subprocess.run(["rustc", "--version"], env=dict(env, RUSTUP_TOOLCHAIN=tc), capture_output=True, text=True)
    print(tc, r.stdout.strip() or r.stderr.strip())
    if r.returncode:
        sys.exit(1)

#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that the harnesses compile natively."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, HOME=os.environ.get("HOME") or "/root", CARGO_NET_OFFLINE="true")
r = subprocess.run(["cargo", "kani", "--version"], env=env)
if r.returncode:
    sys.exit("cargo kani is missing")
env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
r = subprocess.run(["cargo", "build", "--offline", "--bin", "replay", "--target-dir", os.path.join(V, ".build", "replay")],
                   cwd=os.path.join(V, "replay"), env=env)
sys.exit(r.returncode)

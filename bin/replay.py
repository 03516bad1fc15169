#!/usr/bin/env python3
"""replay.py VARIANT HARNESS MODE PROP SEED FROM TO: rebuild from /repo and run those cases verbosely."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, vplib
v, h, mode, prop, seed, a, b = sys.argv[1:8]
binp = B.build(v, h)
env = dict(os.environ); env.update(vplib.SAN_ENV)
os.execve(binp, [binp, "--mode", mode, "--prop", prop, "--seed", seed, "--from", a, "--to", b, "-v", "--cpu", "300"], env)

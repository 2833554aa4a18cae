#!/usr/bin/env python3-vt
"""setup: the tools the checks use are there, and the real-arithmetic back ends accept identities and refuse non-identities"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import reals as R, frontend as F

for t in (F.CLANG, F.GXX, F.OPT):
    subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
a, b, t = R.var("a"), R.var("b"), R.var("t")
good = [(a + b) * (a - b) - (a * a - b * b), R.fn("sin", t) * R.fn("sin", t) + R.fn("cos", t) * R.fn("cos", t) - 1,
        a / b + b / a - (a * a + b * b) / (a * b)]
bad = [(a + b) * (a - b) - (a * a + b * b), R.fn("sin", t) - R.fn("cos", t), a / b - b / a]
for g in good:
    assert R.NF().zero(g) and R.PIT().zero(g), R.show(g)
for g in bad:
    assert not R.NF().zero(g) and not R.PIT().zero(g), R.show(g)
print("self-test passed")

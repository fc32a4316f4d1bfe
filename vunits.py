#!/usr/bin/env python3-vt
"""developer tool: python3-vt vunits.py NAME... runs the units whose name contains one of the words"""
import sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import check
from engine import runner
from engine.ssa import Program
sys.setrecursionlimit(20000)
ssa = check.export_ssa()
P = Program(ssa)
r = runner.verify(P, names=sys.argv[1:], verbose=True)
print("bad:", [(x["unit"], x["part"]) for x in r["bad"]], "demoted:", r["demoted"])

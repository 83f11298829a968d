#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]   |   check.py --replay <file>"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

from vlib import runner  # noqa: E402

if sys.argv[1] == "--replay":
    sys.exit(runner.replay(sys.argv[2]))
if sys.argv[1] == "--guided":
    runner.guided(sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5])
tier = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv:
    tier = sys.argv[sys.argv.index("--tier") + 1]
sys.exit(runner.run_property(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))

#!/usr/bin/env python3
"""Entry point of every check:  run.py C01 [--tier quick|thorough] [--replay FILE]

Runs the property's generators in several parallel shard processes, writes
evidence/<ID>.json and, on a violation, a replay file and a VIOLATION line.
"""
import os, sys
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(VT, [VT] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pbt import core
if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))

#!/usr/bin/env python3
"""Decides one property of /repo's current source: check.py <property> [--tier quick|thorough].
Exit 0: property holds on everything analysed; 1 with a VIOLATION line: it is broken;
2: the analysis itself failed."""
import os
import sys
if os.environ.get("PYTHONHASHSEED") != "0":       # the same verdict on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
from tsa.runner import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

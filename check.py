#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [-v]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core  # noqa: E402
from vlib.registry import checks_of  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(checks_of))

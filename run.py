#!/usr/bin/env python3-vt
"""run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vrt import core  # noqa

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))

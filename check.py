#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [-v]: decide one property from /repo's current source"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsa import run
sys.exit(run.main(sys.argv[1:]))

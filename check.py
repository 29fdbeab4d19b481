#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | replay <file> | build"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import core
if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == 'replay': sys.exit(core.replay_file(a[1]))
    if a and a[0] == 'build':
        for v in ('plain', 'asan'): print(*core.exe_for(v)[:1])
        sys.exit(0)
    sys.exit(core.main(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))

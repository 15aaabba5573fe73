#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo DIR]   (see DESIGN.md)"""
import argparse
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.loader import Program, AnalysisBroken  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true', help='check that the analyser loads and the package parses')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('QUANGURU_REPO', '/repo'))
    a = ap.parse_args()
    try:
        prog = Program(a.repo)
        if a.setup or not a.property:
            print(f'{len(prog.modules)} modules, {len(prog.funcs)} functions')
            return 0 if prog.modules else 2
        mod = importlib.import_module('sa.checks.' + a.property.lower())
        return mod.check(prog, a.tier)
    except AnalysisBroken as e:
        print(f'analysis broken: {e}', file=sys.stderr)
        return 2


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 3)

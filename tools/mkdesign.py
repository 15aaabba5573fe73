#!/usr/bin/env python3
"""Regenerates DESIGN.md: the engine, one section per property (rule, what is analysed, bounds and assumptions as the checks state them in
their evidence, plus the hand-written parts below), the planted bugs, fixes, findings and scope.   Run after check.py for all properties."""
import glob
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
sys.path.insert(0, ROOT)
from mkprops import P, NA  # noqa: E402
from mkmanifest import CLAIMED  # noqa: E402
from design_text import HEAD, HOW, TAIL  # noqa: E402
import importlib.util  # noqa: E402


def wall(p):
    f = os.path.join(ROOT, 'evidence', p + '.json')
    if not os.path.exists(f):
        return {}
    return json.load(open(f))


def main():
    seeds = {}
    res = {}
    rf = os.path.join(ROOT, 'tools/seed_results.json')
    if os.path.exists(rf):
        res = json.load(open(rf))
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
        sid = os.path.basename(os.path.dirname(m))
        seeds.setdefault(json.load(open(m))['property'], []).append((sid, json.load(open(m))))
    fixed, found = {}, {}
    for ln in open(os.path.join(ROOT, 'known_findings.txt')):
        for kind, d in (('fixed:', fixed), ('finding:', found)):
            if ln.startswith(kind):
                pid = ln.split('property=')[1][:3]
                d.setdefault(pid, []).append(ln.split('property=')[1][4:].strip())
    out = [HEAD.strip('\n'), '', '## Properties and how each one is decided', '']
    for q in P:
        pid = q['id']
        if pid not in CLAIMED:
            continue
        ev = wall(pid)
        cov = ev.get('coverage', {})
        mod = importlib.import_module('sa.checks.' + pid.lower())
        out.append(f'### {pid} {q["title"]}')
        out.append('')
        rule = getattr(mod, 'RULE', '')
        if rule:
            out.append(f'*Rule.* {rule}.')
        if HOW.get(pid):
            out.append('')
            out.append(HOW[pid].strip())
        if cov.get('explanation'):
            out += ['', '*Analysed.* ' + cov['explanation'].strip()]
        out += ['', '*Bounds.* ' + CLAIMED[pid][1]]
        if cov.get('assumptions'):
            out += ['', '*Assumes.* ' + '; '.join(cov['assumptions']) + '.']
        s = seeds.get(pid, [])
        if s:
            out += ['', '*Planted bugs.* ' + '; '.join(f'`{i}` ({m["needs"]}): {res.get(i, "caught")}' for i, m in s) + '.']
        mf = os.path.join(ROOT, 'tools/muts', pid.lower() + '.py')
        if os.path.exists(mf):
            sp = importlib.util.spec_from_file_location('mm', mf)
            mm = importlib.util.module_from_spec(sp)
            try:
                sp.loader.exec_module(mm)
                b = [x for x in mm.M if x[1] == 'bad']
                g = [x for x in mm.M if x[1] != 'bad']
                out += ['', f'*Small mutants* (`tools/mut.py {pid}`): {len(b)} breaking variants reported, {len(g)} behaviour-preserving variants quiet.']
            except Exception as e:
                print(pid, repr(e))
        if fixed.get(pid):
            out += ['', '*Defects found and fixed.* ' + '; '.join(fixed[pid]) + '.']
        if found.get(pid):
            out += ['', '*Known findings.* ' + '; '.join(found[pid]) + '.']
        out.append('')
    out += ['## Properties static analysis does not decide here', '']
    for q in P:
        if q['id'] not in CLAIMED:
            out.append(f'- **{q["id"]} {q["title"]}**: {NA.get(q["id"], "")}')
            if fixed.get(q['id']):
                out[-1] += ' (Defects met on the way and fixed: ' + '; '.join(fixed[q['id']]) + '.)'
    out += ['', TAIL.strip('\n'), '']
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()

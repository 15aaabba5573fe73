#!/usr/bin/env python3
"""Self-test of the checkers: tools/mut.py C10 [name...]  applies each variant of tools/muts/c10.py to a scratch copy of the
sources and runs the check on it.  Variants: (name, 'bad'|'same', [(file, old, new), ...]); 'bad' must be reported with exit
status 1, 'same' (a behaviour-preserving edit) must stay quiet."""
import ast
import concurrent.futures
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    p = os.path.join(ROOT, 'tools', 'muts', prop.lower() + '.py')
    spec = importlib.util.spec_from_file_location('m', p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.M


def locate(s, old):
    """the text of s that equals old up to spacing around operators, quote style and comments at line ends"""
    if old in s:
        return old
    toks = re.findall(r'^[ \t]+|\n[ \t]*|[A-Za-z0-9_]+|[^\sA-Za-z0-9_]', old)
    pat = r'[ \t]*'.join(r'\n' + x[1:] if x[0] == '\n' else x if x.isspace() else '[\'"]' if x in '\'"' else re.escape(x) for x in toks)
    mm = re.search(pat.replace(r'[ \t]*\n', r'[ \t]*(?:#[^\n]*)?\n'), s)
    return mm.group(0) if mm else old


def strip(s):
    """the same program without comments and docstrings, in the layout of ast.unparse"""
    t = ast.parse(s)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return ast.unparse(t) + '\n'


def one(prop, name, kind, edits):
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree('/repo/src', os.path.join(d, 'src'))
        for f, old, new in edits:
            p = os.path.join(d, 'src/quanguru', f)
            s = open(p).read()
            old = locate(s, old)
            if s.count(old) < 1:
                s = strip(s)
                old = locate(s, old)
            if s.count(old) < 1:
                return name, kind, 'NOT APPLICABLE: ' + old.strip()[:60], ''
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
            try:
                compile(s, p, 'exec')
            except SyntaxError as e:
                return name, kind, f'SYNTAX {e}', ''
        shutil.copytree(os.path.join(ROOT, 'sa'), os.path.join(d, 'v/sa'))
        shutil.copy(os.path.join(ROOT, 'check.py'), os.path.join(d, 'v/check.py'))
        if os.path.exists(os.path.join(ROOT, 'known_findings.txt')):
            shutil.copy(os.path.join(ROOT, 'known_findings.txt'), os.path.join(d, 'v'))
        try:
            r = subprocess.run([sys.executable, 'check.py', prop, '--repo', d], cwd=os.path.join(d, 'v'), capture_output=True,
                               text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return name, kind, '*** TIMEOUT', ''
        out = [x for x in r.stdout.split('\n') if x.startswith('  ')]
        ok = (r.returncode == 1) if kind == 'bad' else (r.returncode == 0)
        return name, kind, ('ok' if ok else f'*** exit {r.returncode}'), '\n'.join(out)[:700] + (
            r.stderr[-600:] if r.returncode not in (0, 1) else '')
    finally:
        shutil.rmtree(d)


def main():
    prop = sys.argv[1]
    names = sys.argv[2:]
    todo = [m for m in load(prop) if not names or m[0] in names]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('MUTJ', '5'))) as ex:
        for name, kind, res, out in ex.map(lambda m: one(prop, *m), todo):
            if res != 'ok':
                bad += 1
            print(f'{prop} {name:30} {kind:5} {res}')
            if out and (res != 'ok' or names or '-v' in os.environ.get('MUTV', '')):
                print(out)
    print(prop, len(todo), 'variants,', bad, 'unexpected')
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)

"""Obligations, evidence and exit status of one check."""
import contextlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, prog, tier, rule, explanation, assumptions=()):
        self.prop, self.prog, self.tier = prop, prog, tier
        self.rule, self.explanation, self.assumptions = rule, explanation, list(assumptions)
        self.good, self.violations, self.undecided_, self.samples = [], [], [], []
        self.counts = {}
        self.keys = set()
        self.t0 = time.time()

    # ---- obligations
    def ok(self, key, detail=''):
        if key in self.keys:
            return
        self.keys.add(key)
        self.good.append((key, detail))

    def bad(self, key, where, detail):
        """key: stable identification (rule + construct, no line numbers); where: (file, line, function)"""
        if any(v['key'] == key for v in self.violations):
            return
        self.keys.add(key)
        f, l, fn = where
        self.violations.append(dict(key=key, file=f, line=l, function=fn, detail=detail))

    def undecided(self, key, why):
        self.undecided_.append((key, str(why)[:300]))

    @contextlib.contextmanager
    def guard(self, key):
        """an obligation the analysis cannot follow is undecided, not violated"""
        try:
            yield
        except Exception as e:      # Unsupported construct or a shape the rule does not know
            self.undecided(key, f'{type(e).__name__}: {e}')

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    # ---- end of the run
    def known(self):
        out = {}
        p = os.path.join(ROOT, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                if line.startswith('finding:'):
                    # finding: property=C01 key=<key> :: text
                    head, _, text = line[len('finding:'):].partition(' :: ')
                    parts = head.strip().split(' ', 1)
                    prop = parts[0].split('=', 1)[1]
                    key = parts[1].strip().split('=', 1)[1]
                    if prop == self.prop:
                        out[key] = text.strip()
        return out

    def finish(self, minimum=0):
        known = self.known()
        new = [v for v in self.violations if v['key'] not in known]
        listed = [v for v in self.violations if v['key'] in known]
        n_ob = len(self.good) + len(self.violations) + len(self.undecided_)
        ev = os.path.join(ROOT, 'evidence')
        os.makedirs(ev, exist_ok=True)
        replay = os.path.join(ev, f'{self.prop}.report.txt')
        lines = [f'property {self.prop}: {self.rule}', '']
        for v in new:
            lines += [f"VIOLATION {v['key']}", f"  {v['file']}:{v['line']} in {v['function']}", f"  {v['detail']}", '']
        for v in listed:
            lines += [f"known finding {v['key']}: {known[v['key']]}", f"  {v['file']}:{v['line']} in {v['function']}", '']
        for k, w in self.undecided_:
            lines += [f'undecided {k}: {w}']
        lines += ['', 'discharged obligations:'] + [f'  {k}  {d}' for k, d in self.good]
        with open(replay, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        cov = dict(explanation=self.explanation, rule=self.rule, obligations=n_ob, discharged=len(self.good),
                   undecided=len(self.undecided_), undecided_list=[f'{k}: {w}' for k, w in self.undecided_][:40],
                   modules_parsed=len(self.prog.modules), classes=len(self.prog.classes),
                   functions=len(self.prog.funcs), source_digest=self.prog.digest,
                   samples=(self.samples or [f'{k} {d}'.strip() for k, d in self.good])[:12])
        cov.update(self.counts)
        doc = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                   coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                   violations=len(new))
        with open(os.path.join(ev, f'{self.prop}.json'), 'w') as f:
            json.dump(doc, f, indent=1)
        for v in listed:
            print(f"KNOWN-FINDING: property={self.prop} {known[v['key']]}")
        print(f'{self.prop}: {n_ob} obligations, {len(self.good)} discharged, {len(self.undecided_)} undecided, '
              f'{len(new)} violated, {len(listed)} known')
        for k, w in self.undecided_[:20]:
            print(f'  undecided {k}: {str(w)[:160]}')
        for v in new:
            print(f"  {v['file']}:{v['line']} in {v['function']}: {v['key']}: {v['detail']}")
        if new:
            print(f'VIOLATION property={self.prop} replay={replay}')
            return 1
        if n_ob < minimum and not self.undecided_:
            print(f'analysis broken: only {n_ob} obligations found, at least {minimum} expected', file=sys.stderr)
            return 2
        return 0

"""History independence of cached matrices over client programs (used by C07, C08 and C09).

A scenario is a set of small functions over the public classes.  `setup` builds and configures objects; each observer asks for a
Hamiltonian or propagator; each change assigns a parameter or recomposes objects.  The rule compares, by the abstract points a
value derives from, what an observer gives after the change when everything had been evaluated before (so that every cache is
filled), possibly with another observer in between, with what it gives when nothing had been evaluated before.
"""
import ast
import contextlib
import multiprocessing
import sys
from .common import *
from ..client import Client, points, gen
from ..interp import Raise

TOOL = ('identity', 'compositeOp', '_matPower', '_matMulInputs', 'LiouvillianExp', 'Unitary', 'hc', '_prepostSO', '_preSO', '_postSO',
        'tensorProd', 'Liouvillian')


def shape(t):
    """what matters of a value: products in order, adjoints, and for everything else the points it derives from"""
    if t[0] == 'hc':
        s = shape(t[1])
        return s[1] if s[0] == 'hc' else ('hc', s)
    if t[0] == 'ident':
        return ('id',) + tuple(sorted(points(t)) or (repr(t[1]),))
    if t[0] == 'bin' and t[1] == '@':
        fs = []
        for x in (shape(t[2]), shape(t[3])):
            if x[0] == 'prod':
                fs.extend(x[1:])
            elif x != ('pts',):
                fs.append(x)
        return fs[0] if len(fs) == 1 else ('prod',) + tuple(fs)
    if t[0] in ('tup', 'L'):
        return (t[0],) + tuple(shape(x) for x in t[1:])
    return ('pts',) + tuple(sorted(p for p in points(t) if p not in TOOL))


def text(s):
    if s[0] == 'hc':
        return f'adjoint of ({text(s[1])})'
    if s[0] == 'id':
        return '1'
    if s[0] == 'prod':
        return ' times '.join(text(x) for x in s[1:])
    if s[0] in ('tup', 'L'):
        return '[' + '; '.join(text(x) for x in s[1:]) + ']'
    return 'a value from {' + ', '.join(s[1:]) + '}'


def pts(s):
    if s[0] in ('hc', 'prod', 'tup', 'L'):
        return set().union(*[pts(x) for x in s[1:]]) if len(s) > 1 else set()
    return set(s[1:])


def adjoint_hook(I, func, args, kwargs, st, line):
    from ..loader import Func
    if isinstance(func, Func) and func.key == 'quanguru.QuantumToolbox.linearAlgebra.hc':
        return [(st, ('hc', I.freeze(st, args[0])))]
    if isinstance(func, Func) and func.key == 'quanguru.QuantumToolbox.operators.identity' and args + tuple(kwargs):
        return [(st, ('ident', I.freeze(st, args[0] if args else kwargs[0][1])))]
    return None


def reads(n):
    """a statement that only asks for a matrix"""
    v = n.value if isinstance(n, ast.Expr) else None
    return isinstance(v, ast.Attribute) or isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
        and v.func.attr in ('unitary', 'getUnitary')


def unread(source):
    """the changes of a client program without the reads between their steps"""
    out = []
    for n in ast.parse(source).body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith('change_'):
            n.name = 'fresh_' + n.name[7:]
            n.body = [x for x in n.body if not reads(x)] or [ast.Pass()]
            out.append(ast.unparse(n))
    return source + '\n' + '\n'.join(out) + '\n'


class Scenario:
    def __init__(self, prog, name, source):
        self.c = Client(prog, unread(source), hooks=adjoint_hook)
        self.name = name
        self.dead = {}
        self.obs = [n for n in self.c.funcs if n.startswith('see_')]
        self.muts = [n for n in self.c.funcs if n.startswith('change_')]
        outs = self.one(self.c.run('setup'))
        self.s0, self.env = outs

    @staticmethod
    def one(outs):
        if len(outs) != 1:
            raise Unsupported(f'{len(outs)} paths')
        s, v = outs[0]
        if isinstance(v, Raise):
            raise Stopped(v)
        return s, v

    def do(self, st, fn):
        return self.one(self.c.run(fn, self.env, st=st))

    def see(self, st, fn):
        s, v = self.do(st, fn)
        return s, shape(self.c.I.freeze(s, v))


class Stopped(Unsupported):
    def __init__(self, r):
        super().__init__(f'raises {r.exc}')
        self.raised = r


def place(prog, key, cls=None):
    f = prog.funcs.get('quanguru.classes.' + key)
    return where(f) if f is not None else ('src/quanguru/classes', 0, key)


class Lines:
    """obligations of one worker, in order"""

    def __init__(self):
        self.out = []

    def ok(self, key, detail=''):
        self.out.append(('ok', key, detail))

    def bad(self, key, where_, detail):
        self.out.append(('bad', key, where_, detail))

    def undecided(self, key, why):
        self.out.append(('undecided', key, str(why)))

    def count(self, name, n=1):
        self.out.append(('count', name, n))

    @contextlib.contextmanager
    def guard(self, key):
        try:
            yield
        except Exception as e:
            self.undecided(key, f'{type(e).__name__}: {e}')


JOBS = []


def work(n):
    sys.setrecursionlimit(100000)
    fn, args = JOBS[n]
    rep = Lines()
    fn(rep, *args)
    return rep.out


def parallel(rep, jobs, renew=None):
    """runs the obligations of independent jobs in forked workers and reports them in order"""
    global JOBS
    JOBS = jobs
    with multiprocessing.get_context('fork').Pool(min(8, max(1, len(jobs))), maxtasksperchild=renew) as pool:
        for out in pool.imap(work, range(len(jobs)), chunksize=1):
            for x in out:
                getattr(rep, x[0])(*x[1:])


def load(prog, rep, programs):
    """scenarios whose set-up can be followed"""
    out = []
    for name, src in programs.items():
        with rep.guard(name):
            S = Scenario(prog, name, src)
            S.filled, S.twice, S.before = S.s0, None, {}
            for o in S.obs:
                with rep.guard(f'{name}:fill:{o}'):
                    S.filled, _ = S.see(S.filled, o)
            out.append(S)
            rep.count('programs')
            rep.count('changes', len(S.muts))
            rep.count('observers', len(S.obs))
    return out


def depends(rep, S, must):
    """observers that have to derive from what a change assigns"""
    for m, obs in must.items():
        m = 'change_' + m
        if m not in S.muts:
            continue
        for o in obs:
            key = f'{S.name}:{m[7:]} reaches {o}'
            with rep.guard(key):
                a = S.see(S.s0, 'see_' + o)[1]
                b = S.see(S.do(S.s0, 'fresh_' + m[7:])[0], 'see_' + o)[1]
                if a == b:
                    rep.bad(key, blame(S.c.p, S, m), f'in {S.name}, {o} does not depend on what the change "{m[7:]}" assigns: it is '
                            f'{text(a)[:300]} before and after')
                else:
                    rep.ok(key, 'differs')


def renames(rep, S, table):
    """changes that put one symbol in the place of another: whatever derived from the old one has to derive from the new one only"""
    for m, (old, new) in table.items():
        m = 'change_' + m
        if m not in S.muts:
            continue
        with rep.guard(f'{S.name}:{m[7:]} replaces {old}'):
            st = S.do(S.s0, 'fresh_' + m[7:])[0]
            for o in S.obs:
                key = f'{S.name}:{m[7:]} replaces {old} in {o[4:]}'
                with rep.guard(key):
                    a, b = S.see(S.s0, o)[1], S.see(st, o)[1]
                    if old not in pts(a):
                        continue
                    if old in pts(b) or new not in pts(b):
                        rep.bad(key, blame(S.c.p, S, m), f'in {S.name}, {o[4:]} is {text(b)[:200]} after the change "{m[7:]}", which puts '
                                f'{new} in the place of {old} (before: {text(a)[:200]})')
                    else:
                        rep.ok(key, 'replaced')


def judge(rep, S, m, deep):
    """one change x every observer x every history"""
    prog = S.c.p
    try:
        fresh, _ = S.do(S.s0, 'fresh_' + m[7:])
        after, _ = S.do(S.filled, m)
    except Stopped as e:
        rep.undecided(f'{S.name}:{m[7:]}', f'the change raises {e.raised.exc}')
        return
    except Unsupported as e:
        rep.undecided(f'{S.name}:{m[7:]}', f'the change gives {e}')
        return
    want, before, wrong, done = {}, {}, {}, {}
    for o in S.obs:
        with rep.guard(f'{S.name}:{m[7:]}:{o[4:]}'):
            try:
                want[o] = S.see(fresh, o)[1]
                before[o] = S.see(S.s0, o)[1]
            except Stopped:
                rep.count('not computable after the change')

    def run(text_, st, seq):
        """reads the observers of seq one after the other"""
        said = []
        for o in seq:
            if o not in want:
                continue
            how = text_ + (f', then {", ".join(said)} read' if said else '')
            said.append(o[4:])
            rep.count('histories')
            try:
                st, got = S.see(st, o)
            except Stopped as e:
                if not e.raised.implicit:
                    wrong.setdefault(o, f'with {how}, {o[4:]} after the change "{m[7:]}" raises {e.raised.exc}, but is computed '
                                     'when nothing was evaluated before')
                else:
                    rep.undecided(f'{S.name}:{m[7:]}:{o[4:]}', f'{how}: {e}')
                    want.pop(o)
                return
            except Unsupported as e:
                rep.undecided(f'{S.name}:{m[7:]}:{o[4:]}', f'{how}: {e}')
                want.pop(o)
                return
            done[o] = done.get(o, 0) + 1
            if got != want[o]:
                old, new = sorted(pts(got) - pts(want[o])), sorted(pts(want[o]) - pts(got))
                wrong.setdefault(o, f'with {how}, {o[4:]} after the change "{m[7:]}" is {text(got)[:200]} instead of '
                                 f'{text(want[o])[:200]}' + (f' (still from {old})' if old else '')
                                 + (f' (not from {new})' if new else ''))
                return

    every = 'everything evaluated before'
    for o in S.obs:
        run(every, after, [o])
    run(every, after, S.obs + S.obs)
    run(every, after, S.obs[::-1] + S.obs)
    if any(reads(n) for n in S.c.funcs[m].node.body):
        try:
            st, _ = S.do(S.s0, m)
            for o in S.obs:
                run('only what the change itself reads evaluated', st, [o])
        except Unsupported as e:
            rep.undecided(f'{S.name}:{m[7:]}:itself', e)
    if deep:
        for x in S.obs:
            for o in S.obs:
                if x != o:
                    run(every, after, [x, o])
        st = S.filled
        try:
            for o in S.obs[::-1] + S.obs:
                st, _ = S.see(st, o)
            st, _ = S.do(st, m)
            for o in S.obs:
                run('everything evaluated three times before', st, [o])
        except Unsupported as e:
            rep.undecided(f'{S.name}:{m[7:]}:thrice', e)
        for x in S.obs:
            try:
                st, _ = S.do(S.see(S.s0, x)[0], m)
            except Unsupported as e:
                rep.undecided(f'{S.name}:{m[7:]}:only {x[4:]}', e)
                continue
            for o in S.obs:
                run(f'only {x[4:]} evaluated before', st, [o])
    for o in S.obs:
        key = f'{S.name}:{m[7:]}:{o[4:]}'
        if o in wrong:
            rep.bad(key, blame(prog, S, m), f'in {S.name}, ' + wrong[o])
        elif o in want:
            rep.ok(key, f'{done.get(o, 0)} histories, {"unaffected" if before.get(o) == want[o] else "affected"}')
            rep.count('unaffected' if before.get(o) == want[o] else 'affected')


def judge_pairs(rep, S, m1):
    """two changes, everything read before, between and after them"""
    n = 0
    try:
        fresh1, _ = S.do(S.s0, 'fresh_' + m1[7:])
        mid, _ = S.do(S.filled, m1)
        for o in S.obs:
            mid, _ = S.see(mid, o)
        quiet, _ = S.do(S.filled, m1)
    except Unsupported as e:
        rep.count('first changes not followed')
        return
    for m2 in S.muts:
        key = f'{S.name}:{m1[7:]} then {m2[7:]}'
        try:
            fresh2, _ = S.do(fresh1, 'fresh_' + m2[7:])
            ends = [('everything read before, between and after', S.do(mid, m2)[0]),
                    ('everything read before and after', S.do(quiet, m2)[0])]
        except Unsupported as e:
            rep.count('second changes not followed')
            continue
        bad = None
        for o in S.obs:
            if o[4:] in S.dead.get(m1[7:], ()):
                continue
            try:
                want = S.see(fresh2, o)[1]
                for how, st in ends:
                    got = S.see(st, o)[1]
                    rep.count('histories')
                    n += 1
                    if got != want and bad is None:
                        bad = (f'in {S.name}, with {how} the changes "{m1[7:]}" and "{m2[7:]}", {o[4:]} is {text(got)[:200]} '
                               f'instead of {text(want)[:200]}')
            except Unsupported as e:
                rep.count('observations not followed')
        if bad:
            rep.bad(key, blame(S.c.p, S, m2), bad)
        else:
            rep.ok(key, f'{len(S.obs)} observers')


def run(prog, rep, programs, tier, must={}, dead={}, swaps={}):
    Ss = load(prog, rep, programs)
    for S in Ss:
        S.dead = dead
        depends(rep, S, must.get(S.name, {}))
    parallel(rep, [(renames, (S, {m: v})) for S in Ss for m, v in swaps.get(S.name, {}).items()] + [(judge, (S, m, tier == 'thorough')) for S in Ss for m in S.muts]
             + [(judge_pairs, (S, m)) for S in Ss for m in S.muts if tier == 'thorough'])


def blame(prog, S, m):
    """the assignment or method the change goes through"""
    node = S.c.funcs[m].node
    name = None
    for n in ast.walk(node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            name = n.targets[0].attr
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and name is None:
            name = n.func.attr
        elif isinstance(n, ast.BinOp) and name is None:
            name = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}.get(type(n.op))
    for f in prog.funcs.values():
        if f.cls is not None and f.name == name and f.key.endswith('.set') and '.classes.' in f.key and 'QSys.' not in f.key:
            return where(f)
    for f in prog.funcs.values():
        if f.cls is not None and f.name == name and '.classes.' in f.key and 'QSys.' not in f.key:
            return where(f)
    return ('src/quanguru/classes', 0, name or '?')

"""C15: a run starts from empty results; every sweep point contributes its own results only."""
import itertools
from .common import *
from ..scen import Scene, equal_under
from .c14 import World

RULE = ('heap analysis of the result containers over a whole run with several sweep points: freshness and emptiness at each start, '
        'ownership of every stored value by its point')
MS = 'quanguru.classes.modularSweep.'
FIELDS = ['results', 'average', 'resultsLast', 'states', 'statesLast', 'calculated']
LAST = ['resultsLast', 'statesLast', 'average']


class Run(World):
    """a simulation with real result containers; user computations store values that carry the point and the step"""

    def __init__(self, prog, owners=('a', 'b'), lens=(2,), steps=1, keep=True, average=False, internal=True, mode=None, quiet=()):
        super().__init__(prog, owners, (), steps, None, (), bool(lens), True, keep, [C(k) for k in lens])
        S, I = self.S, self.S.I
        self.lens = lens
        self.average = average
        self.quiet = quiet          # names of the objects that store no results
        self.R = prog.cls('qResults')
        named = prog.cls('named')
        I.inline_classes = set(I.inline_classes) | {c.key for c in prog.classes.values() if not prog.is_sub(c, named)
                                                    and c.module is self.R.module}
        who = [self.sim] + self.pros + list(self.systems.values())
        self.boxes, self.old = {}, {}
        names = {}
        for x in who:
            S.put(x, '_named__name', C(x[1]))
            q = S.obj('res_' + x[1], 'qResults')
            nm = C(x[1] + 'Results')
            S.put(q, '_named__name', nm)
            S.put(x, 'qRes', q)
            self.boxes[x] = q
            names[q] = nm
            for f in FIELDS:
                o = S.dct(((C('kept'), S.lst([('old', q, f)])),))
                self.old[(q, f)] = o
                S.put(q, '_qResBase__' + f, o)
        reg = I.getattr(('cls', self.R.key), '_allResults', S.st)[0][1]
        S.st.store[(reg, '#c')] = ('D',) + tuple((names[q], q) for q in self.boxes.values())
        for q in self.boxes.values():
            S.put(q, 'allResults', reg)
        for i, p in enumerate(self.pros):
            S.put(p, '_internal', TRUE if internal and i == 0 else FALSE)
            S.put(p, '_qBase__superSys', self.of[i])
        S.put(self.sim, '_qBase__superSys', self.of[0])
        n = 1
        for k in lens:
            n *= k
        S.putp(self.sweep, 'indMultip', C(n))
        self.points = list(itertools.product(*[range(k) for k in lens])) if lens else [()]
        self.initial = {k: self.contents(S.st, o) for k, o in self.old.items()}
        for p in self.pros:
            S.st.facts[('hasattr', p, C('steps'))] = False
            if p != self.pros[0]:
                S.members(p, 'subSys', [])
        S.st.facts[('K', ('attr', ('cls', prog.cls('_poolMemory').key), 'reRun'))] = frozenset('T')
        if mode == 'all cores':
            S.put(('cls', prog.cls('_poolMemory').key), 'coreCount', NONE)
        S.st.facts[('EQ', ('call', ('ext', 'platform.system'), (), ()))] = C('Linux')
        self.pool = S.obj('pool')
        for m in ('map', 'imap', 'imap_unordered', 'starmap', 'map_async'):
            S.put(self.pool, m, ('ext', 'pool.' + m))
        S.put(self.pool, '_processes', ('sym', 'processes'))
        self.problems = []
        self.work = []

    def contents(self, st, o):
        return self.S.I.freeze(st, o)

    def point(self, st):
        for e in reversed(st.events):
            if e[0] == 'user' and e[1] == 'sweep':
                a = e[2][0]
                if a[0] in ('L', 'tup') and all(is_c(x) for x in a[1:]):
                    return tuple(x[2] for x in a[1:])
                raise Unsupported('point')
        return ()

    def hook(self, I, func, args, kwargs, st, line):
        if not isinstance(func, Func):
            return None
        n, a0 = func.name, (args[0] if args else None)
        cl = func.cls.name if func.cls is not None else None
        if n == 'initialState' and len(args) == 1:
            return [(st.copy(), ('init', a0, self.point(st)))]
        if n in ('_resetLast', '_reset'):
            return None
        if n == '_indicesForSweep' or n == 'indMultip':
            return None
        if n == 'prepare' and (a0 in self.pros or a0 == self.sweep):
            return [(st.copy(), NONE)]
        if n in ('_constructMatrices', '_freeEvol'):
            return [(st.copy(), NONE)]
        return super().hook(I, func, args, kwargs, st, line)

    def ext(self, I, q, args, kwargs, st, line):
        if q.startswith('multiprocessing.') and q.endswith('Pool'):
            return [(st.copy(), self.pool)]
        if q.startswith('pool.') or q == 'multiprocessing.pool.Pool.map':
            return self.parallel(I, q[5:], args, dict(kwargs), st, line)
        if not q.startswith('user.'):
            return None
        outs = super().ext(I, q, args, kwargs, st, line)
        if not q.startswith('user.compute.'):
            if q.startswith('user.preCompute.'):
                for k in LAST:
                    for box in self.boxes.values():
                        f = I.sget(st, (box, '_qResBase__' + k))
                        fz = I.freeze(st, f)
                        if fz != ('D',) and not self.written(fz, self.point(st)):
                            self.problems.append((q[5:], box, k, fz))
            return outs
        s = outs[0][0]
        who = args[0]
        box = self.boxes.get(who)
        if box is None:
            raise Unsupported('container of ' + show(who))
        val = ('val', who, I.freeze(st, args[1]))
        sets = [('singleResult', 'first', val), ('singleResult', 'second', ('twice', val))] if who[1] not in self.quiet else []
        if self.average and who == self.pros[0]:
            sets.append(('resAverage', 'mean', ('avg', val)))
        for prop, key, v in sets:
            o2 = I.setattr(box, prop, I.new_list(s, ('L', C(key), v)), s)
            o2 = [(a, b) for a, b in o2 if not isinstance(b, Raise)]
            if len(o2) != 1:
                raise Unsupported('stores of user results')
            s = o2[0][0]
        return [(s, NONE)]

    def written(self, t, point):
        """only values of this point inside"""
        toks = list(self.tokens(t))
        return toks and all(x == point for x in toks)

    def tokens(self, t):
        """the points of the states inside t"""
        if isinstance(t, tuple) and t:
            if t[0] == 'init' and len(t) == 3:
                yield t[2]
                return
            if t[0] == 'old':
                yield 'old'
                return
            for x in t[1:]:
                if isinstance(x, tuple):
                    yield from self.tokens(x)

    def parallel(self, I, meth, args, kw, st, line):
        f, it = args[0], args[1]
        items = I.known_items(it, st)
        if items is None or meth == 'map_async':
            return None
        self.work = []
        cur = st.copy()
        cur.ev('user', 'map', (I.freeze(st, it),), line)
        res = []
        for x in items:
            a = (x,) if meth != 'starmap' else tuple(I.known_items(x, cur))
            outs = I.call(f, a, (), cur.copy())
            outs = [(s, v) for s, v in outs if not isinstance(v, Raise)]
            if len(outs) != 1:
                raise Unsupported('work of a process')
            s, v = outs[0]
            self.work.append([(e[1], e[2]) for e in s.events[len(cur.events):] if e[0] == 'user'])
            # what a worker does stays there, except the objects it sends back
            cur = cur.copy()
            known = {k[0] for k in cur.store}
            for k, w in s.store.items():
                if k[0][0] == 'obj' and k[0] not in known:
                    cur.store[k] = w
            res.append(v)
        if meth == 'imap_unordered':
            res.reverse()
        return [(cur, I.new_list(cur, ('L',) + tuple(res)))]

    def final(self, s, prop):
        """{container: frozen content of the documented property}"""
        out = {}
        for x, q in self.boxes.items():
            outs = self.S.get(q, prop, s)
            if len(outs) != 1:
                return None
            out[q] = self.S.I.freeze(outs[0][0], outs[0][1])
        return out

    def expected(self, x, q, point):
        """{key: values of the point in order}"""
        st = []
        for k in range(self.steps + 1):
            def at(p):
                t = ('init', p, point)
                for _ in range(k):
                    t = ('stepped', t)
                return t
            if x == self.sim:
                st.append(('L',) + tuple(at(p) for p in self.pros))
            elif x in self.pros:
                st.append(at(x))
            else:
                st.append(at([p for p, y in zip(self.pros, self.of) if y == x][0]))
        vals = [('val', x, y) for y in st]
        return {C('first'): vals, C('second'): [('twice', v) for v in vals]}

    def expected_states(self, point):
        out = {}
        for i, p in enumerate(self.pros):
            key = C((self.of[i][1] if self.S.st.store[(p, '_internal')] == TRUE else p[1]) + 'Results')
            t = [('init', p, point)]
            for _ in range(self.steps):
                t.append(('stepped', t[-1]))
            out[key] = t
        return out


def leaf_at(t, point):
    for i in point:
        if t[0] not in ('L', 'tup') or len(t) <= i + 1:
            return None
        t = t[1 + i]
    return t


def values(t):
    return list(t[1:]) if t is not None and t[0] == 'L' else [t]


# ---------------------------------------------------------------------------------- resets
def resets(prog, rep):
    R = prog.cls('qResults')
    for meth, fields in (('_reset', FIELDS), ('_resetLast', LAST)):
        with rep.guard(meth):
            W = Run(prog)
            f = prog.lookup(R, meth)[1][1]
            some = list(W.boxes.values())[0]
            W.S.I.call_hook = None
            n = bad = 0
            for s, v in W.S.call(some, meth):
                if isinstance(v, Raise):
                    continue
                n += 1
                seen = {}
                for q in W.boxes.values():
                    for fld in FIELDS:
                        o = W.S.I.sget(s, (q, '_qResBase__' + fld))
                        c = W.S.I.freeze(s, o)
                        old = W.old[(q, fld)]
                        if fld not in fields:
                            if o != old:
                                rep.bad(f'{meth}:{fld}', where(f), f'{meth} replaces {fld}, which a sweep point must not touch')
                                bad = 1
                            continue
                        if c != ('D',):
                            if any(x == 'old' for x in W.tokens(c)):
                                rep.bad(f'{meth}:{fld}', where(f), f'after {meth} the {fld} of '
                                        f'{"the container it is called on" if q == some else "another container"} still hold earlier values')
                                bad = 1
                            else:
                                rep.undecided(f'{meth}:{fld}', show(c)[:80])
                                bad = 1
                            continue
                        if o in seen and o[0] == 'obj':
                            rep.bad(f'{meth}:shared', where(f), f'after {meth} {fld} and {seen[o]} are one object')
                            bad = 1
                        seen[o] = fld
                for k, o in W.old.items():
                    if W.contents(s, o) != W.initial[k]:
                        rep.bad(f'{meth}:handed out', where(f), f'{meth} empties the {k[1]} object that an earlier run handed out')
                        bad = 1
            if n and not bad:
                rep.ok(meth, f'{len(W.boxes)} containers')
            elif not n:
                rep.undecided(meth, 'no path')


# ---------------------------------------------------------------------------------- whole runs
def plain(W, rep, nm, fn, mode):
    S, I = W.S, W.S.I
    I.stack, I.loops = [], []
    if mode == 'run':
        outs = S.call(W.sim, 'run', (), (('p', FALSE),))
    elif mode == 'run parallel':
        outs = S.call(W.sim, 'run', (), (('p', TRUE),))
    elif mode == 'parallel':
        outs = I.run(fn, [W.sim, W.pool], (), S.st)
    else:
        outs = I.run(fn, [W.sim, NONE], (), S.st)
    return outs


def runs(prog, rep, tier):
    fn = prog.fn(MS + 'runSimulation')
    f = prog.lookup(prog.cls('Simulation'), 'run')[1][1]
    lens = [(), (2,), (2, 2)] + ([(3,), (2, 3), (2, 1, 2)] if tier == 'thorough' else [])
    for n in lens:
        for mode in ('run', 'run parallel'):
            for owners in (('a', 'b'), ('a', 'a')):
                for avg in (False, True):
                    if avg and (owners != ('a', 'b') or len(n) == 2):
                        continue
                    nm = f'{mode}:{"".join(owners)}:{n}' + (':average' if avg else '')
                    with rep.guard(nm):
                        whole(prog, rep, f, fn, nm, n, mode, owners, avg)
    with rep.guard('discarded states'):
        W = Run(prog, keep=False)
        k = 0
        for s, v in plain(W, rep, 'x', fn, 'run'):
            if isinstance(v, Raise) and v.exc == 'KeyError':
                continue
            if isinstance(v, Raise):
                continue
            k += 1
            got = W.final(s, 'states')
            for q, t in got.items():
                if any(isinstance(x, tuple) for x in W.tokens(t)):
                    rep.bad('discarded', where(f), 'states are stored although delStates is True')
                    return
        if k:
            rep.ok('discarded states')
        else:
            rep.undecided('discarded states', 'no path')


def whole(prog, rep, f, fn, nm, lens, mode, owners, avg):
    W = Run(prog, owners, lens, average=avg, internal=owners == ('a', 'b'))
    n = 0
    for s, v in plain(W, rep, nm, fn, mode):
        if isinstance(v, Raise):
            rep.undecided(nm, f'ends in {v.exc} (line {v.line})') if not v.implicit else None
            continue
        n += 1
        if W.problems:
            q, box, k, fz = W.problems[0]
            rep.bad('start:' + k, where(f), f'{nm}: at {q} the {k} of {box[1][4:]} hold {show(fz)[:150]}')
            return
        for k, o in W.old.items():
            if W.contents(s, o) != W.initial[k]:
                rep.bad('handed out:' + k[1], where(f), f'{nm}: the {k[1]} object of an earlier run is changed')
                return
        res, sts = W.final(s, 'resultsDict'), W.final(s, 'states')
        if res is None or sts is None:
            rep.undecided(nm, 'results not followed')
            return
        for x, q in W.boxes.items():
            want = {}
            for p in W.points:
                for key, vals in W.expected(x, q, p).items():
                    want.setdefault(key, {})[p] = vals
            if not contribution(W, rep, nm, f, 'results of ' + x[1], res[q], want):
                return
        want = {}
        for p in W.points:
            for key, vals in W.expected_states(p).items():
                want.setdefault(key, {})[p] = vals
        if not contribution(W, rep, nm, f, 'states of the simulation', sts[W.boxes[W.sim]], want):
            return
    if n:
        rep.ok(nm, f'{n} paths')
        rep.count('paths', n)
    else:
        rep.undecided(nm, 'no path returns')


def contribution(W, rep, nm, f, what, got, want):
    if got[0] != 'D':
        rep.undecided(nm, what + ' ' + show(got)[:80])
        return False
    have = dict(got[1:])
    for key, pts in want.items():
        if key not in have:
            rep.bad('lost:' + what.split()[0], where(f), f'{nm}: the {what} have no entry {show(key)}')
            return False
        for p, vals in pts.items():
            leaf = leaf_at(have[key], p)
            if leaf is None:
                if have[key][0] == 'L':
                    rep.bad('shape:' + what.split()[0], where(f), f'{nm}: the {what} have no entry at point {p}')
                else:
                    rep.undecided(nm, what)
                return False
            g = values(leaf)
            if g != vals:
                toks = set(W.tokens(leaf))
                if toks - {p}:
                    rep.bad('leak:' + what.split()[0], where(f), f'{nm}: the {what} at point {p} contain values of '
                            f'{sorted(map(str, toks - {p}))}')
                elif len(g) != len(vals):
                    rep.bad('number:' + what.split()[0], where(f), f'{nm}: the {what} at point {p} are {len(g)} values instead of {len(vals)}')
                elif sorted(map(repr, g)) == sorted(map(repr, vals)):
                    rep.bad('order:' + what.split()[0], where(f), f'{nm}: the {what} at point {p} are in the wrong order')
                else:
                    rep.undecided(nm, f'{what}: {show(leaf)[:120]}')
                return False
    for key in have:
        if 'old' in set(W.tokens(have[key])):
            rep.bad('old:' + what.split()[0], where(f), f'{nm}: the {what} still contain values of an earlier run')
            return False
        if key == C('mean'):
            for p in W.points:
                leaf = leaf_at(have[key], p)
                toks = set(W.tokens(leaf)) if leaf is not None else set()
                if toks - {p}:
                    rep.bad('leak:average', where(f), f'{nm}: the average at point {p} contains values of {sorted(map(str, toks - {p}))}')
                    return False
    return True


def check(prog, tier):
    rep = Report('C15', prog, tier, RULE,
                 'Resets of every field of every container, and whole serial and parallel runs of one to three sweep axes with two protocols, '
                 'shared systems, averages and discarded states, were interpreted over abstract heaps.',
                 ['two protocols and one time step stand for any number', 'the user stores results through the documented properties'])
    with rep.guard('resets'):
        resets(prog, rep)
    with rep.guard('runs'):
        runs(prog, rep, tier)
    return rep.finish(minimum=1)

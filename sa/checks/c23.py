"""C23: bound simulation parameters follow their source until set explicitly."""
import itertools
from .histories import *
from ..client import show, ratio, points, gen
from ..interp import subterms

RULE = ('abstract interpretation of assignments and reads of the time and state parameters over binding topologies made through the public '
        'interface, against the reference rule: a parameter is the one set on the simulation, or else that of the simulation it is bound to')

ATTRS = ('stepSize', 'totalTime', 'samples', 'delStates', '_initialStateInput')
COMMON = ''.join(f'''
def set_{a}(s, v): s.{a} = v
def get_{a}(s): return s.{a}
''' for a in ATTRS + ('stepCount',)) + '''
def put_stepSize(c, v): c.simStepSize = v
def put_totalTime(c, v): c.simTotalTime = v
def put_stepCount(c, v): c.simStepCount = v
def put_samples(c, v): c.simSamples = v
def put_delStates(c, v): c.simDelStates = v
def use_stepSize(c, v): c.stepSize = v
def use_totalTime(c, v): c.totalTime = v
def use_stepCount(c, v): c.stepCount = v
def use_samples(c, v): c.samples = v
def use_delStates(c, v): c.delStates = v
'''

# topology: name -> (program, parent of every simulation, parameters given in the program: (simulation, attribute, symbol))
CHAIN = ('''
def setup():
    a = Simulation(totalTime=T0, stepSize=S0)
    q = Qubit(frequency=f1)
    a.addQSystems(q)
    p = freeEvolution(system=q)
    return [a, q.simulation, p.simulation], [None, q, p]
''', [None, 0, 1], [(0, 'totalTime', 'T0'), (0, 'stepSize', 'S0')])
FORK = ('''
def setup():
    a = Simulation()
    q = Qubit(frequency=f1)
    r = Cavity(frequency=f2, dimension=d1)
    a.addQSystems([q, r])
    a.totalTime = T0
    a.stepSize = S0
    p = qProtocol(system=q)
    o = freeEvolution(superSys=q)
    return [a, q.simulation, r.simulation, p.simulation, o.simulation, r._freeEvol.simulation], [None, q, r, p, o, None]
''', [None, 0, 0, 1, 1, 2], [(0, 'totalTime', 'T0'), (0, 'stepSize', 'S0')])
STEPS = ('''
def setup():
    q = Qubit(frequency=f1)
    q.simTotalTime = T0
    q.simStepSize = S0
    P = qProtocol(system=q)
    g = freeEvolution(superSys=q)
    h = xGate(system=q, angle=t1)
    P.addStep(g, h)
    return [q.simulation, P.simulation, g.simulation, h.simulation], [q, P, g, h]
''', [None, 0, 1, 1], [(0, 'totalTime', 'T0'), (0, 'stepSize', 'S0')])
LATE = ('''
def setup():
    q = Qubit(frequency=f1)
    p = freeEvolution(system=q)
    a = Simulation()
    a.addQSystems(q)
    return [a, q.simulation, p.simulation], [None, q, p]
''', [None, 0, 1], [])
SINGLE = ('''
def setup():
    q = Qubit(frequency=f1)
    p = freeEvolution(system=q)
    return [q.simulation, p.simulation, q._freeEvol.simulation], [q, p, None]
''', [None, 0, 0], [])
COMPOSITE = ('''
def setup():
    q = Qubit(frequency=f1)
    r = Qubit(frequency=f2)
    s = QuantumSystem(subSys=[q, r])
    a = Simulation(system=s)
    a.stepSize = S0
    a.totalTime = T0
    return [a, s.simulation, s._freeEvol.simulation], [None, s, None]
''', [None, 0, 1], [(0, 'totalTime', 'T0'), (0, 'stepSize', 'S0')])
EARLY = ('''
def setup():
    q = Qubit(frequency=f1)
    q.simTotalTime = T1
    q.simStepSize = S1
    q.simSamples = n1
    q.simDelStates = D1
    a = Simulation(totalTime=T0, stepSize=S0)
    a.addQSystems(q)
    p = freeEvolution(system=q)
    return [a, q.simulation, p.simulation], [None, q, p]
''', [None, 0, 1], [(0, 'totalTime', 'T0'), (0, 'stepSize', 'S0'), (1, 'totalTime', 'T1'), (1, 'stepSize', 'S1'), (1, 'samples', 'n1'),
                    (1, 'delStates', 'D1')])
PARTIAL = ('''
def setup():
    q = Qubit(frequency=f1)
    q.simTotalTime = T1
    r = Qubit(frequency=f1)
    r.simStepSize = S1
    a = Simulation(totalTime=T0, stepSize=S0)
    a.addQSystems(q)
    a.addQSystems(r)
    return [a, q.simulation, r.simulation], [None, q, r]
''', [None, 0, 0], [(0, 'totalTime', 'T0'), (0, 'stepSize', 'S0'), (1, 'totalTime', 'T1'), (2, 'stepSize', 'S1'),
                    # values of a bound that is created while the other parameter is already set are copied
                    (1, 'stepSize', 'S0'), (2, 'totalTime', 'T0')])
TOPOLOGIES = dict(early=EARLY, partial=PARTIAL, chain=CHAIN, fork=FORK, steps=STEPS, late=LATE, single=SINGLE, composite=COMPOSITE)

CIRCULAR = '''
def setup(): return [Qubit(frequency=f1), Qubit(frequency=f2), Qubit(frequency=f3)]
def add(e, i, j): e[i].simulation.addQSystems(e[j])
def readAll(e):
    for q in e:
        q.simulation.stepSize
        q.simulation.totalTime
        q.simulation.samples
        q.simulation.delStates
'''

DEFAULTS = {'samples': C(1), 'delStates': None}


class Unjudged(Exception):
    pass


class Model:
    """the reference: explicit values and sources"""

    def __init__(self, parents, given):
        self.parents = parents
        self.own = [{} for _ in parents]
        for i, a, v in given:
            self.own[i][a] = gen(v, 'int' if v[0] == 'n' else 'float')

    def source(self, i, a):
        while a not in self.own[i]:
            if self.parents[i] is None:
                return i
            i = self.parents[i]
        return i

    def read(self, i, a):
        return self.own[self.source(i, a)].get(a)

    def write(self, i, a, v):
        old = self.read(i, a)
        if old is not None and same(old, v):
            return                      # the value it has already
        if a == 'stepCount':
            self.own[i]['count'] = v
            T = self.read(i, 'totalTime')
            if T is not None:
                self.own[i]['stepSize'] = ('bin', '/', T, v)
        else:
            self.own[i][a] = v
            n = self.read(i, 'count')
            if a == 'totalTime' and n is not None and self.read(i, 'stepSize') is None:
                self.own[i]['stepSize'] = ('bin', '/', v, n)

    def readCount(self, i):
        """may give the simulation a total time; None when it can not be known"""
        if self.read(i, 'totalTime') is None:
            if not {'totalTime', 'stepSize', 'count'} & set(self.own[i]) and self.parents[i] is not None:
                return self.readCount(self.parents[i])
            n, dt = self.own[i].get('count'), self.read(i, 'stepSize')
            if self.parents[i] is not None and (n is not None or dt is not None):
                raise Unjudged
            if n is None or dt is None:
                return False
            self.own[i]['totalTime'] = ('bin', '*', n, dt)
        return self.read(i, 'stepSize') is not None


def same(a, b):
    ra, rb = ratio(a), ratio(b)
    return a == b or ra is not None and ra == rb


def substituted(t, m):
    if t[:1] == ('gen',) and t[1] in m:
        return m[t[1]]
    return tuple(substituted(x, m) if isinstance(x, tuple) else x for x in t)


def fits(t, ref, m):
    """True / False / None: does t have the shape of ref with these arguments (up to equal products)"""
    if ref[:1] == ('gen',) and ref[1] in m:
        return same(t, m[ref[1]])
    if not isinstance(t, tuple) or len(t) != len(ref):
        return None
    out = True
    for x, y in zip(t, ref):
        if isinstance(y, tuple) and isinstance(x, tuple):
            r = fits(x, y, m)
            if not r:
                return r
        elif x != y:
            return None
    return out


def whole(t):
    """polynomial {monomial: coefficient} of a number of steps, when its quotients are whole"""
    if t[0] == 'c' and t[1] in ('int', 'float'):
        return {(): t[2]} if t[2] else {}
    if t[0] == 'bin' and t[1] in ('+', '-'):
        a, b = whole(t[2]), whole(t[3])
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in out.items() if v}
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in ('int', 'round', 'ceil', 'floor', 'rint', 'float', 'trunc'):
        return whole(t[2][0])
    r = ratio(t)
    if r is None or any(e < 0 for e in r[1].values()):
        return None
    return {tuple(sorted(r[1].items())): r[0]}


class Sims:
    def __init__(self, prog, name, topo):
        src, self.parents, self.given = topo
        self.name = name
        self.c = Client(prog, src + COMMON, hooks=adjoint_hook)
        st, v = Scenario.one(self.c.run('setup'))
        I = self.c.I
        self.sims, self.comps = (tuple(I.content(st, x))[1:] for x in I.content(st, v)[1:])
        if len(self.sims) != len(self.parents):
            raise Unsupported('number of simulations')
        self.s0 = st
        d = Scenario.one(self.c.run('get_delStates', self.sims[0], st=st))[1]
        self.default = {'samples': C(1), 'delStates': d}
        self.count = None

    def get(self, st, i, a):
        s, v = Scenario.one(self.c.run('get_' + a, self.sims[i], st=st))
        return s, self.c.I.freeze(s, v)

    def set(self, st, how, i, a, v):
        obj = self.sims[i] if how == 'set' else self.comps[i]
        return Scenario.one(self.c.run(f'{how}_{a}', obj, v, st=st))[0]

    def blame(self, a):
        for f in self.c.p.funcs.values():
            if f.cls is not None and f.name == a.strip('_') and f.key.endswith('.set') and 'QSimBase' in f.key:
                return where(f)
        for f in self.c.p.funcs.values():
            if f.key.endswith('QSimBase.timeBase._bound'):
                return where(f)
        return ('src/quanguru/classes/QSimBase.py', 0, a)


def reference(prog):
    """the number of steps of a simulation with its own total time and step size"""
    c = Client(prog, 'def main(): return Simulation(totalTime=T9, stepSize=S9).stepCount\n', hooks=adjoint_hook)
    s, v = Scenario.one(c.run('main'))
    return c.I.freeze(s, v)


def describe(events, S):
    lab = lambda i: 'abcdefgh'[i]
    return ', '.join('read everything' if e[0] == 'read' else f'read {lab(e[1])}.stepCount' if e[0] == 'count' else f'{ {"set": "", "put": "(sim) ", "use": "(component) "}[e[0]]}{lab(e[1])}.{e[2]} = {e[3]}'
                     for e in events)


def value(a, n, ref=None):
    """the value assigned by event n; ref: the event or the symbol of the program whose value is assigned again"""
    if isinstance(ref, str):
        return gen(ref, 'int' if ref[0] == 'n' else 'float')
    n = n if ref is None else ref
    return gen(f'n{n}', 'int') if a in ('stepCount', 'samples', '_initialStateInput') else gen(f'x{n}')


def play(S, events):
    st, m = S.s0, Model(S.parents, S.given)
    for n, e in enumerate(events):
        if e[0] == 'read':
            for i in range(len(S.sims)):
                for a in ATTRS:
                    st, _ = S.get(st, i, a)
                k = m.readCount(i)
                if k:
                    st, _ = S.get(st, i, 'stepCount')
        elif e[0] == 'count':
            if m.readCount(e[1]):
                st, _ = S.get(st, e[1], 'stepCount')
        else:
            how, i, a = e[:3]
            v = value(a, n, *e[3:])
            st = S.set(st, how, i, a, v)
            m.write(i, a, v)
    return st, m


def judge(rep, S, first, rest, G):
    for events in [(first,)] + [(first,) + r for r in rest]:
        named = [e[:3] + (value(e[2], n, *e[3:])[1],) if e[0] not in ('read', 'count') else e for n, e in enumerate(events)]
        key = f'{S.name}: {describe(named, S)}'
        with rep.guard(key):
            try:
                st, m = play(S, events)
            except Unjudged:
                rep.count('histories not judged (step count without a total time on a bound simulation)')
                continue
            except Stopped as e:
                raise Unsupported(e)
            wrong = None
            for i in range(len(S.sims)):
                for a in ATTRS:
                    _, got = S.get(st, i, a)
                    want = m.read(i, a)
                    if want is None:
                        want = S.default.get(a, NONE)
                    rep.count('readings compared')
                    if not same(got, want):
                        if got != NONE and want != NONE and points(got) == points(want) and points(got):
                            raise Unsupported(f'{a} is {show(got)[:80]}, expected {show(want)[:80]}')
                        wrong = wrong or (i, a, got, want, m.source(i, a))
            if wrong:
                i, a, got, want, src = wrong
                rep.bad(key, S.blame(events[-1][2] if len(events[-1]) > 2 else a), f'{a} of simulation {"abcdefgh"[i]} is '
                        f'{show(got)[:80]} instead of {show(want)[:80]} (that of simulation {"abcdefgh"[src]})')
                continue
            for i in range(len(S.sims)):
                try:
                    known = m.readCount(i)
                except Unjudged:
                    continue
                if not known:
                    continue
                st, got = S.get(st, i, 'stepCount')
                T, dt = m.read(i, 'totalTime'), m.read(i, 'stepSize')
                rep.count('step counts compared')
                f = fits(got, G, {'T9': T, 'S9': dt})
                if f is None and points(got) == points(T) | points(dt):
                    raise Unsupported(f'step count {show(got)[:100]}')
                if not f:
                    wrong = (f'the step count of simulation {"abcdefgh"[i]} is {show(got)[:100]}, which does not belong to its total time '
                             f'{show(T)[:60]} and step size {show(dt)[:60]}')
                    break
                _, got = S.get(st, i, 'totalTime')
                if not same(got, T):
                    wrong = (f'the total time of simulation {"abcdefgh"[i]} is {show(got)[:60]} after its step count was read instead of '
                             f'{show(T)[:60]}')
                    break
            if wrong:
                rep.bad(key, S.blame('stepCount'), wrong)
            else:
                rep.ok(key)


def judge_count(rep, prog):
    """a given number of steps is the number of steps that is used"""
    for key, body in (('total time then count', 's = Simulation(totalTime=T9)\n    s.stepCount = n9'),
                      ('size and total time then count', 's = Simulation(stepSize=S9)\n    s.totalTime = T9\n    s.stepCount = n9'),
                      ('count then total time', 's = Simulation(stepCount=n9)\n    s.totalTime = T9'),
                      ('count then size', 's = Simulation()\n    s.stepCount = n9\n    s.stepSize = S9')):
        key = 'given step count: ' + key
        with rep.guard(key):
            c = Client(prog, f'def main():\n    {body}\n    return s.stepCount\n', hooks=adjoint_hook)
            s, v = Scenario.one(c.run('main'))
            v = c.I.freeze(s, v)
            w = whole(v)
            f = prog.funcs.get('quanguru.classes.QSimBase.timeBase.stepCount.get') or prog.funcs.get('quanguru.classes.QSimBase.timeBase.stepCount')
            if w is None:
                raise Unsupported(show(v)[:120])
            if w == whole(gen('n9', 'int')):
                rep.ok(key)
            else:
                rep.bad(key, where(f) if f else ('src/quanguru/classes/QSimBase.py', 0, 'stepCount'),
                        f'a given number of steps n9 is read as {show(v)[:100]}')


def cells(S, st, q):
    """simulation parameters on the way to their sources, to show a circle"""
    I = S.I
    sim = I.sget(st, (q, '_QSimComp__simulation'))
    c = I.sget(st, (sim, '_timeBase__stepSize')) if sim is not None else None
    seen = []
    while c is not None and c[0] == 'obj':
        if c in seen:
            return True
        seen.append(c)
        c = I.sget(st, (c, '_bound'))
    return False


def judge_circle(rep, prog, seqs):
    c = Client(prog, CIRCULAR, hooks=adjoint_hook)
    s0, e = Scenario.one(c.run('setup'))
    qs = c.I.content(s0, e)[1:]
    f = next((f for f in prog.funcs.values() if f.key.endswith('QSimBase.timeBase._bound')), None)
    for seq in seqs:
        key = 'circle: ' + ', '.join(f'{"abc"[j]} added to {"abc"[i]}' for i, j in seq)
        with rep.guard(key):
            st = s0
            for i, j in seq:
                st, _ = Scenario.one(c.run('add', e, C(i), C(j), st=st))
            if any(cells(c, st, q) for q in qs):
                rep.bad(key, where(f) if f else ('src/quanguru/classes/QSimBase.py', 0, '_bound'),
                        'a parameter is bound to itself through a chain of simulations')
                continue
            Scenario.one(c.run('readAll', e, st=st))
            rep.ok(key)


def check(prog, tier):
    rep = Report('C23', prog, tier, RULE, 'Simulations of systems, protocols, gates and steps bound through addQSystems, superSys and addStep; '
                 'every history of one or two (thorough: three) assignments through the simulation or the component, with reads between them. '
                 'Assigned values are pairwise different symbols, or values that were in use before.',
                 ['assigning the value a parameter already has is not judged', 'parameters assigned before the bound is created on both sides '
                  'are not judged', 'quotients of times are exact'])
    with rep.guard('reference'):
        G = reference(prog)
        if not {'T9', 'S9'} <= points(G):
            raise Unsupported(f'step count {show(G)[:100]} of a simulation with its own total time and step size')
        jobs = []
        for name, topo in TOPOLOGIES.items():
            with rep.guard(name):
                S = Sims(prog, name, topo)
                rep.count('topologies')
                ev = [('set', i, a) for i in range(len(S.sims)) for a in ATTRS + ('stepCount',)]
                time = [x for x in ev if x[2] in ('stepSize', 'totalTime', 'stepCount')]
                via = [(h, i, a) for h in ('put', 'use') for i, x in enumerate(S.comps) if x != NONE
                       for a in ATTRS[:-1] + ('stepCount',)]
                for e in ev:
                    rest = [(x,) for x in ev] + [(('read',), x) for x in (ev if e in time else [y for y in ev if y[2] == e[2]])]
                    if tier == 'thorough':
                        rest += [(x, y) for x in time for y in time] if e in time else [(x, y) for x in ev for y in ev if e[2] in (x[2], y[2])]
                        rest += [(x, ('read',), y) for x in time for y in time] if e in time else []
                    elif name in ('fork', 'steps'):
                        rest = [x for x in rest if x[-1][1] != e[1] or x[-1][2] != e[2]][::1]
                    two = {('set', 0, 'stepCount'), ('set', 0, 'stepSize')}
                    if e in two and not S.given:
                        rest += [((two - {e}).copy().pop(), ('count', i), x) for i in range(len(S.sims)) for x in time]
                    for k in range(0, max(1, len(rest)), 400):
                        jobs.append((judge, (S, e, rest[k:k + 400], G)))
                # values that were in use before are assigned again
                for i, par in enumerate(S.parents):
                    chain = [] if par is None else [par] + ([S.parents[par]] if S.parents[par] is not None else [])
                    for a in ATTRS:
                        rest = [(('set', i, a), ('set', i, a, 0))]
                        first = ('set', i, a)
                        jobs.append((judge, (S, first, rest, G)))
                        given = {x[1]: x[2] for x in S.given if x[0] == 0}
                        for s in chain:
                            others = [x for x in ('stepSize', 'totalTime') if x != a] if a in ('stepSize', 'totalTime') else []
                            jobs.append((judge, (S, ('set', s, a), [(('set', s, a), ('set', i, a, 0)), (('set', s, a), ('read',), ('set', i, a, 0))]
                                                 + [(('set', i, b), ('set', s, a), ('set', i, a, 0)) for b in others], G)))
                            for b in others:
                                if a in given and not any(x[0] == i for x in S.given):
                                    jobs.append((judge, (S, ('set', i, b), [(('set', s, a), ('set', i, a, given[a]))], G)))
                for e in via:
                    jobs.append((judge, (S, e, [(x,) for x in ev if x[2] == e[2]], G)))
        jobs.append((judge_count, (prog,)))
        steps = [(i, j) for i in range(3) for j in range(3) if i != j]
        seqs = [s for n in ((2, 3) if tier != 'thorough' else (2, 3, 4)) for s in itertools.product(steps, repeat=n)]
        for k in range(0, len(seqs), 60):
            jobs.append((judge_circle, (prog, seqs[k:k + 60])))
        parallel(rep, jobs)
    return rep.finish(300)

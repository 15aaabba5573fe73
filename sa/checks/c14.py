"""C14: the order of a sweep point: sweep values, initial states, empty last results, pre, compute, steps with compute, post."""
from .common import *
from ..scen import Scene, equal_under

RULE = ('event-order analysis: the trace of user callbacks, sweep values, resets and time steps of a sweep point, on every path, against the '
        'documented protocol')
MS = 'quanguru.classes.modularSweep.'


class World:
    """a simulation with protocols, some of which share a system; every callback is user code"""

    def __init__(self, prog, owners, opened=(), steps=2, td=None, silent=(), sweeps=True, evol=True, keep=True, inds=None):
        self.prog = prog
        S = self.S = Scene(prog)
        self.sweeps_on = sweeps
        I = S.I
        self.steps = steps
        self.sim = S.obj('simulation', 'Simulation')
        self.pros = [S.obj(f'p{i}', 'qProtocol' if i else 'freeEvolution') for i in range(len(owners))]
        self.systems = {}
        for o in owners:
            self.systems.setdefault(o, S.obj('s' + o, 'Qubit'))
        self.of = [self.systems[o] for o in owners]
        S.members(self.sim, 'subSys', self.of, keys=self.pros)
        everyone = [self.sim] + self.pros + list(self.systems.values())
        for i, a in enumerate(everyone):
            for b in everyone[i + 1:]:
                for k in ('eq', 'is'):
                    for x, y in ((a, b), (b, a)):
                        S.st.facts[(k, x, y)] = False
        for x in everyone:
            for k in ('compute', 'preCompute', 'postCompute'):
                S.put(x, k, NONE if (x[1], k) in silent else self.user(f'{k}.{x[1]}'))
        S.put(self.sim, 'evolFunc', self.user('evol') if evol else NONE)
        S.put(self.sim, 'qRes', S.obj('qRes', 'qResults'))
        self.res = [S.obj(f'res{i}', 'qResults') for i in range(2)]
        self.opened = {self.pros[i] for i in opened}
        self.sweep = S.obj('sweep', 'Sweep')
        self.tdep = S.obj('timeDependency', 'Sweep')
        S.put(self.sim, 'Sweep', self.sweep)
        S.put(self.sim, 'timeDependency', self.tdep)
        S.putp(self.sweep, 'inds', S.lst(inds if inds is not None else [('sym', 'n0')] if sweeps else []))
        self.td = td
        S.members(self.tdep, 'subSys', [S.obj('tds', '_sweep')] if td else [])
        if td:
            S.put(('sym', 'tds'), '_sweepList', ('sym', 'tdlist') if td == 'list' else NONE)
            S.putp(self.tdep, 'inds', S.lst([('sym', 'm0')]))
        for x in self.pros:
            sm = S.obj(x[1] + 'sim', 'Simulation')
            S.put(sm, '_stateBase__delStates', self.param(x[1] + 'del', FALSE if keep else TRUE))
            S.put(x, '_genericProtocol__currentState', self.param(x[1] + 'state', ('state', x, 'stale')))
            S.put(x, '_internal', FALSE)
            S.I.kinds[('state', x, 'stale')] = frozenset('o')
        I.call_hook, I.ext_hook = self.hook, self.ext
        self.count = 0

    def user(self, name):
        t = ('ext', 'user.' + name)
        self.S.st.facts[('callable', t)] = True
        return t

    def param(self, name, val):
        o = self.S.obj(name, '_parameter')
        self.S.put(o, '_value', val)
        self.S.put(o, '_bound', NONE)
        return o

    def ext(self, I, q, args, kwargs, st, line):
        if not q.startswith('user.'):
            return None
        s = st.copy()
        s.ev('user', q[5:], tuple(I.freeze(s, a) for a in args), line)
        if q == 'user.evol':
            for p in self.pros:
                f = (('sym', p[1] + 'state'), '_value')
                s.store[f] = ('stepped', I.sget(s, f))
        return [(s, NONE)]

    def hook(self, I, func, args, kwargs, st, line):
        if not isinstance(func, Func):
            return None
        n = func.name
        a0 = args[0] if args else None
        if n == 'stepCount' and len(args) == 1:
            return [(st.copy(), C(self.steps))]
        if n == 'initialState' and len(args) == 1:
            early = self.sweeps_on and not any(e[0] == 'user' and e[1] == 'sweep' for e in st.events)
            return [(st.copy(), ('init', ('before the sweep', a0) if early else a0))]
        if n == 'densityMatrix':
            return [(st.copy(), ('dm', I.freeze(st, a0)))]
        if n == '_isOpen':
            return [(st.copy(), TRUE if a0 in self.opened else FALSE)]
        if n == 'simulation' and len(args) == 1:
            return [(st.copy(), ('sym', a0[1] + 'sim'))] if a0 in self.pros else None
        if n in ('_freeEvol',):
            return None
        if n == '_resetLast':
            s = st.copy()
            s.ev('user', 'resetLast', (), line)
            return [(s, NONE)]
        if n == '_reset':
            s = st.copy()
            s.ev('user', 'reset', (), line)
            return [(s, NONE)]
        if n == 'runSweep' and func.cls is not None and func.cls.name == 'Sweep':
            s = st.copy()
            s.ev('user', 'sweep' if a0 == self.sweep else 'time' if a0 == self.tdep else 'other', tuple(I.freeze(s, x) for x in args[1:]), line)
            return [(s, NONE)]
        if n in ('prepare', 'indMultip') and func.cls is not None and func.cls.name == 'Sweep':
            return [(st.copy(), NONE if n == 'prepare' else C(self.steps))]
        if n == '_indicesForSweep':
            return [(st.copy(), ('indices',) + tuple(I.freeze(st, x) for x in args))]
        return None


def trace(s):
    return [(e[1], e[2]) for e in s.events if e[0] == 'user']


def groups(W, kind, moment):
    """[(label, set of callbacks)] of one moment in order"""
    out = [({f'{kind}.simulation'}, moment), ({f'{kind}.{p[1]}' for p in W.pros}, moment),
           ({f'{kind}.{x[1]}' for x in W.systems.values()}, moment)]
    return out


def state(W, p, k):
    t = ('init', p)
    if p in W.opened:
        t = ('dm', t)
    for _ in range(k):
        t = ('stepped', t)
    return t


def expected(W):
    out = []
    if W.sweeps_on:
        out.append(({'sweep'}, 'the sweep values'))
    out.append(({'resetLast'}, 'the clearing of the last results'))
    out += groups(W, 'preCompute', 'the pre-computations')
    out += groups(W, 'compute', ('compute', 0))
    for k in range(W.steps):
        if W.td:
            out.append(({'time'}, ('time', k)))
        out.append(({'evol'}, f'time step {k}'))
        out += groups(W, 'compute', ('compute', k + 1))
    out += groups(W, 'postCompute', 'the post-computations')
    return out


def text(m):
    if isinstance(m, tuple):
        if m[0] == 'time':
            return f'the time-dependent parameters of step {m[1]}'
        return 'the computation on the initial state' if m[1] == 0 else f'the computation after time step {m[1] - 1}'
    return m


def judge(rep, W, name, fn, outs, silent):
    n = 0
    for s, v in outs:
        if isinstance(v, Raise):
            continue
        if any(e[0] == 'loop' and "'user'" in repr(e) for e in s.events):
            rep.undecided(name, 'callbacks in a loop that is not unrolled')
            return
        n += 1
        tr = trace(s)
        i = 0
        for want, moment in expected(W):
            want = {w for w in want if w not in silent}
            got = []
            while i < len(tr) and len(got) < len(want):
                got.append(tr[i])
                i += 1
            names = [g[0] for g in got]
            if sorted(names) != sorted(want):
                full = [t[0] for t in tr]
                lost = sorted(w for w in want if w not in names)
                extra = [g for g in names if g not in want or names.count(g) > 1]
                rep.bad(f'order:{text(moment)}', where(fn), f'{name}: at {text(moment)} ' + (f'{lost} missing; ' if lost else '') +
                        f'found {names} in the trace {full}'[:400])
                return
            for g, args in got:
                if not arguments(rep, W, name, fn, g, args, moment, s):
                    return
        if i != len(tr):
            rep.bad('order:extra', where(fn), f'{name}: {[t[0] for t in tr[i:]]} after the post-computations')
            return
    if n:
        rep.ok(name, f'{n} paths')
        rep.count('paths', n)
    else:
        rep.undecided(name, 'no path returns')


def arguments(rep, W, name, fn, g, args, moment, s):
    """the object itself first; for a computation its current state"""
    if '.' not in g:
        if g in ('time', 'sweep'):
            k = C(moment[1]) if g == 'time' else ('sym', 'ind')
            if len(args) == 1 and args[0][0] == 'indices' and args[0][1] != k:
                rep.bad('argument:' + g, where(fn), f'{name}: {text(moment)} are those of point {show(args[0][1])[:100]} instead of {show(k)}')
                return False
        return True
    kind, who = g.split('.')
    obj = ('sym', who)
    if not args or args[0] != obj:
        rep.bad('argument:' + kind, where(fn), f'{name}: {kind} of {who} gets {show(args[0])[:100] if args else "nothing"} instead of {who}')
        return False
    if kind != 'compute':
        return True
    k = moment[1]
    if len(args) < 2:
        rep.bad('argument:state', where(fn), f'{name}: the computation of {who} gets no state')
        return False
    got = args[1]
    if obj == W.sim:
        want = [('L',) + tuple(state(W, p, k) for p in W.pros), ('tup',) + tuple(state(W, p, k) for p in W.pros)]
    elif obj in W.pros:
        want = [state(W, obj, k)]
    else:
        want = [state(W, p, k) for p, x in zip(W.pros, W.of) if x == obj]
    if got in want:
        return True
    if readable(got, W):
        rep.bad('argument:state', where(fn), f'{name}: at {text(moment)} the computation of {who} gets {show(got)[:120]} instead of '
                f'{show(want[0])[:120]}')
        return False
    rep.undecided(name, 'state ' + show(got)[:100])
    return False


def readable(t, W):
    """every part is a state of the world"""
    if t[0] in ('init',):
        return True
    if t[0] in ('stepped', 'dm'):
        return readable(t[1], W)
    if t[0] == 'state':
        return True
    if t[0] in ('L', 'tup'):
        return all(readable(x, W) for x in t[1:])
    return t == NONE


LAYOUTS = [('a',), ('a', 'b'), ('a', 'a'), ('a', 'b', 'a'), ('a', 'a', 'b')]


def points(prog, rep, tier):
    fn = prog.fn(MS + '_runSweepAndPrep')
    for owners in LAYOUTS if tier != 'thorough' else LAYOUTS + [('a', 'b', 'c'), ('a', 'b', 'b', 'a')]:
        for td in (None, 'list', 'none'):
            for sweeps in (True, False):
                for opened in ((), (0,), tuple(range(len(owners)))):
                    if opened and (td or not sweeps):
                        continue
                    nm = f'point:{"".join(owners)}:{"td-" + td if td else "static"}:{"swept" if sweeps else "single"}:{len(opened)} open'
                    with rep.guard(nm):
                        one(prog, rep, fn, nm, owners, td, sweeps, opened, ())
    every = [(x, k) for x in ('simulation', 'p0', 'p1', 'sa', 'sb') for k in ('preCompute', 'compute', 'postCompute')]
    for x in every:
        nm = f'point:without {x[1]} of {x[0]}'
        with rep.guard(nm):
            one(prog, rep, fn, nm, ('a', 'b'), None, True, (), (x,))


def one(prog, rep, fn, nm, owners, td, sweeps, opened, silent):
    W = World(prog, owners, opened, 2, td, silent, sweeps)
    I = W.S.I
    I.stack, I.loops = [], []
    ind = ('sym', 'ind')
    I.kinds[ind] = frozenset('o')
    outs = I.run(fn, [W.sim, ind], (), W.S.st)
    judge(rep, W, nm, fn, outs, {f'{k}.{x}' for x, k in silent})


def check(prog, tier):
    rep = Report('C14', prog, tier, RULE,
                 'A sweep point of a simulation with one to three protocols, sharing systems or not, with open and closed systems, '
                 'time-dependent parameters and callbacks present or absent was interpreted.',
                 ['one to three protocols and two time steps stand for any number'])
    with rep.guard('points'):
        points(prog, rep, tier)
    return rep.finish(minimum=1)

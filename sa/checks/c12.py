"""C12: objects sent to other processes arrive complete, and the registry of names stays usable (and weak) on both sides."""
from .c11 import *
from .c11 import World, one, named_classes, ARGS, is_ref, entries, located

RULE = ('abstract interpretation of the state gathering and restoring methods over the abstract heap of a constructed object: field-by-field '
        'comparison of the restored object with the sent one; no sent value may be a weak reference, closure or private bound method')
SEND = """
def gather(o): return o.__getstate__()
def reduce(o): return o.__reduce__()
def restore(o, s): o.__setstate__(s)
def setitem(d, k, v): d[k] = v
def names(o): return o._allInstaces
def find(o, n): return o.getByNameOrAlias(n)
"""
PROGRAMS = {
    'composite': """
def make():
    q = Qubit(frequency=f1)
    c = Cavity(frequency=f2, dimension=d2)
    s = q + c
    t = s.createTerm(operator=[sigmax, destroy], qSystem=[q, c], frequency=g1)
    t.alias = 'coupling'
    s.initialState = [0, 1]
    s.simTotalTime = t1
    s.simStepSize = t2
    s.totalHamiltonian
    s.unitary()
    s.initialState
    return s
""",
    'swept simulation': """
def make():
    q = Qubit(frequency=f1)
    sim = Simulation()
    sim.addQSystems(q)
    q.initialState = 0
    sim.totalTime = t1
    sim.stepSize = t2
    sim.Sweep.createSweep(system=q, sweepKey='frequency', sweepList=[f1, f2])
    sim.timeDependency.createSweep(system=q, sweepKey='frequency', sweepList=[f2, f1])
    return sim
""",
    'protocol': """
def make():
    q = Qubit(frequency=f1)
    p = qProtocol(system=q)
    g = SpinRotation(system=q, angle=a1, rotationAxis='x')
    h = freeEvolution(system=q)
    h.createUpdate(system=q, key='frequency', value=f2)
    p.addStep(g, h)
    p.totalTime = t1
    p.stepSize = t2
    p.unitary()
    return p
""",
    'term': """
def make():
    q = Qubit(frequency=f1)
    return q.createTerm(operator=sigmax, frequency=g1)
""",
    'updated term': """
def make():
    q = Qubit(frequency=f1)
    s = q.createTerm(operator=sigmax, frequency=g1)
    u = Update(system=q, key='frequency', value=f2)
    return u
""",
}
CONTAINERS = ('dict', 'list', 'set')


def shown(W, v):
    return show(v)[:80]


class Transfer:
    def __init__(self, rep, W, st):
        self.rep, self.W, self.st, self.prog = rep, W, st, W.prog
        self.I = W.c.I

    def fields(self, st, o):
        return {f: v for (x, f), v in st.store.items() if x == o and isinstance(f, str) and not f.startswith('#')}

    def method(self, cls, name):
        r = self.prog.lookup(cls, name) if cls is not None else None
        return r[1][1] if r is not None and r[1][0] == 'func' else None

    def run(self, fn, *args, st):
        outs = self.W.run(fn, *args, st=st)
        return one(outs, fn)

    def objects(self):
        out = []
        for (x, f) in self.st.store:
            if x[0] == 'obj' and x not in out and self.I.typeof(x) is not None and self.I.kind_of(x) not in CONTAINERS:
                out.append(x)
        return out

    def dicts(self):
        """dictionaries of classes with a pickling of their own"""
        out = []
        for (x, f) in self.st.store:
            if x[0] == 'obj' and f == '#c' and self.I.kind_of(x) == 'dict' and x not in out and \
                    self.method(self.I.info[x[1]].cls, '__reduce__') is not None:
                out.append(x)
        return out

    def sent_items(self, st, d):
        """what a dictionary is in the message: (state after, items)"""
        c = self.I.info[d[1]].cls
        if self.method(c, '__reduce__') is None:
            if c is not None and any(self.method(c, n) is not None for n in ('__getstate__', '__reduce_ex__', '__getnewargs__')):
                raise Unsupported('pickling of ' + c.name)
            v = self.I.content(st, d)
            if v[0] != 'D':
                raise Unsupported('content of a dictionary: ' + shown(self.W, v))
            return st, list(v[1:])
        s, v = one(self.I.call_func(self.method(c, '__reduce__'), None, (d,), (), st, 0), '__reduce__')
        items = self.I.known_items(v, s)
        if items is None or len(items) < 2:
            raise Unsupported('__reduce__ returns ' + shown(self.W, v))
        items = list(items) + [NONE] * (6 - len(items))
        made = items[0]
        if made[0] != 'cls' or made[1] != c.key:
            raise Unsupported('__reduce__ creates ' + shown(self.W, made))
        if not self.I.known_items(items[1], s) == [] or items[2] != NONE or items[3] != NONE:
            raise Unsupported('__reduce__ arguments')
        got = self.I.known_items(items[4], s)
        if got is None:
            raise Unsupported('__reduce__ items ' + shown(self.W, items[4]))
        out = []
        for kv in got:
            kv = self.I.known_items(kv, s)
            if kv is None or len(kv) != 2:
                raise Unsupported('__reduce__ item')
            out.append(tuple(kv))
        return s, out

    def fault(self, v, depth=0):
        """why a value cannot be sent, from its form"""
        if is_ref(v):
            return 'a weak reference, which cannot be pickled'
        if v[0] == 'clo':
            return 'a function defined inside another function, which cannot be pickled'
        if v[0] == 'bm' and v[1][0] == 'fn' and v[1][1].split('.')[-1].startswith('__') and not v[1][1].endswith('__'):
            return 'a bound private method, which cannot be restored'
        if v[0] == 'ext' and v[1].split('.')[-1] in ('Lock', 'RLock'):
            return 'a lock, which cannot be pickled'
        if v[0] in ('tup', 'L') and depth < 6:
            for x in v[1:]:
                r = self.fault(x, depth + 1)
                if r:
                    return r
        if v[0] == 'D' and depth < 6:
            for k, x in v[1:]:
                r = self.fault(k, depth + 1) or self.fault(x, depth + 1)
                if r:
                    return r
        return None

    def where(self, cls, name):
        return located(self.prog, cls, name) if self.prog.lookup(cls, name) is not None else (cls.module.path, cls.node.lineno, cls.name)

    def unchanged(self, key, at, cls, s, ignore=()):
        """sending leaves the sender as it was"""
        for k, v in self.st.store.items():
            if k[0] in ignore:
                continue
            w = s.store.get(k)
            if w == v:
                continue
            if k[1] == '#c' and k[0] == self.registry:
                for n, e in (w[1:] if w is not None and w[0] == 'D' else ()):
                    if not is_ref(e) and e[0] == 'obj':
                        self.rep.bad(key, at, f'sending a {cls.name} replaces the weak references in the registry of the sender by the objects, '
                                     'which are then never freed')
                        return False
            if w is None or v != w and not (v[0] == 'obj' and w[0] == 'obj'):
                what = k[1] if isinstance(k[1], str) and not k[1].startswith('#') else 'container'
                self.rep.bad(key, at, f'sending a {cls.name} changes {what} of the sender from {shown(self.W, v)} to '
                             + (shown(self.W, w) if w is not None else 'nothing'))
                return False
        return True

    def judge(self, what, o):
        cls = self.I.typeof(o)
        key = f'{what}:{cls.name}'
        prog, st = self.prog, self.st
        self.registry = st.store.get((self.W.base, '_allInstacesDict'))
        mine = self.fields(st, o)
        get, put = self.method(cls, '__getstate__'), self.method(cls, '__setstate__')
        if any(self.method(cls, n) is not None for n in ('__reduce__', '__reduce_ex__', '__getnewargs__', '__getnewargs_ex__')):
            raise Unsupported('pickling of ' + cls.name)
        if get is None and put is not None:
            raise Unsupported('default state of ' + cls.name)
        s = st
        if get is not None:
            at = self.where(cls, '__getstate__')
            outs = self.W.run('gather', o, st=st)
            if len(outs) == 1 and isinstance(outs[0][1], Raise):
                if outs[0][1].exc and 'AttributeError' in str(outs[0][1].exc):
                    self.rep.bad(key, at, f'gathering the state of a {cls.name} raises {outs[0][1].exc}')
                    return
            s, v = one(outs, 'gathering')
            state = self.I.content(s, v) if self.I.kind_of(v) == 'dict' else v
            if state[0] != 'D' or not all(is_c(k) and k[1] == 'str' for k, _ in state[1:]):
                raise Unsupported(f'state of a {cls.name}: {shown(self.W, state)}')
            state = {k[2]: x for k, x in state[1:]}
        else:
            at = (cls.module.path, cls.node.lineno, cls.name)
            state = dict(mine)
        for k, v in sorted(state.items()):
            self.rep.count('attributes sent')
            if k == '__weakref__':
                self.rep.bad(key, at, f'the state of a {cls.name} includes __weakref__, which cannot be pickled')
                return
            if v == ('attr', o, k):
                self.rep.bad(key, located(prog, cls), f'{k} of a {cls.name} has not been assigned when its state is gathered')
                return
            f = None if self.I.kind_of(v) == 'dict' else self.fault(self.I.freeze(s, v))
            if f:
                self.rep.bad(key, located(prog, cls), f'{k} of a {cls.name} is {f}')
                return
        if not self.unchanged(key, at, cls, s):
            return
        # the message: dictionaries are copied item by item
        copies, r = {}, s.copy()
        for k, v in sorted(state.items()):
            if self.I.kind_of(v) != 'dict':
                continue
            s2, items = self.sent_items(s, v)
            c = self.I.info[v[1]].cls
            red = self.method(c, '__reduce__')
            if not self.unchanged(key, where(red) if red is not None else at, cls, s2):
                return
            for kk, x in items:
                self.rep.count('items of dictionaries sent')
                f = self.fault(kk) or (None if self.I.kind_of(x) == 'dict' else self.fault(x))
                if f:
                    self.rep.bad(key, at, f'{k} of a {cls.name} contains {f}')
                    return
            n = self.I.fresh('dict', c)
            r.store[(n, '#c')] = ('D',) + tuple(items)
            copies[v] = n
            want = self.I.content(s, v)
            want = {kk: (x[2][0] if is_ref(x) else x) for kk, x in want[1:]}
            got = dict(items)
            for kk in want:
                if got.get(kk) != want[kk]:
                    self.rep.bad(key, where(red) if red is not None else at, f'{k} of a {cls.name} arrives '
                                 + (f'without its item {shown(self.W, kk)}' if kk not in got else f'with another object for {shown(self.W, kk)}'))
                    return
        state = {k: copies.get(v, v) for k, v in state.items()}
        n = self.I.fresh('inst', cls)
        if put is not None:
            r.store[(n, '#bare')] = TRUE
            sd = self.I.new_dict(r, ('D',) + tuple((C(k), v) for k, v in state.items()))
            outs = self.W.run('restore', n, sd, st=r)
            if len(outs) == 1 and isinstance(outs[0][1], Raise):
                self.rep.bad(key, self.where(cls, '__setstate__'), f'restoring a {cls.name} raises {outs[0][1].exc}')
                return
            r, _ = one(outs, 'restoring')
        else:
            for k, v in state.items():
                r.store[(n, k)] = v
        got = self.fields(r, n)
        for k in sorted(mine):
            self.rep.count('attributes compared')
            want = copies.get(mine[k], mine[k])
            if k not in got:
                self.rep.bad(key, at if k not in state or put is None else self.where(cls, '__setstate__'),
                             f'a restored {cls.name} has no attribute {k}')
                return
            if got[k] != want and self.I.freeze(r, got[k]) != self.I.freeze(s, want):
                self.rep.bad(key, at, f'attribute {k} of a restored {cls.name} is {shown(self.W, got[k])}, it was {shown(self.W, mine[k])}')
                return
        # the registry on the other side
        reg = mine.get('_allInstaces')
        if reg is not None and self.I.kind_of(reg) == 'dict':
            at2 = self.where(cls, '__setstate__')
            there = self.I.content(r, got['_allInstaces'])
            here = entries(self.I.content(st, reg))
            if there[0] != 'D':
                raise Unsupported('registry after the transfer')
            there = dict(there[1:])
            for name, ref in here.items():
                self.rep.count('registry entries compared')
                e = there.get(name)
                if e is None or not is_ref(e):
                    if e is None or e[0] != 'obj':
                        self.rep.bad(key, at2, f'the entry of {show(name)} in the registry is {shown(self.W, e) if e else "missing"} after the transfer')
                    else:
                        self.rep.bad(key, at2, 'the registry holds the objects themselves after the transfer and keeps them alive')
                    return
                if e[2][0] != ref[2][0]:
                    self.rep.bad(key, at2, f'the entry of {show(name)} in the registry refers to another object after the transfer')
                    return
                outs = self.W.run('find', n, name, st=r)
                if len(outs) == 1 and (isinstance(outs[0][1], Raise) or outs[0][1] != ref[2][0]):
                    self.rep.bad(key, self.where(cls, 'getByNameOrAlias'), f'{show(name)} is not found after the transfer')
                    return
        self.rep.ok(key, f'{len(mine)} attributes')


def judge_named(rep, prog, c):
    with rep.guard(f'{c.name}'):
        W = World(prog, source(c) + SEND, True)
        st, o = one(W.run('plain'), 'plain')
        T = Transfer(rep, W, st)
        T.judge('new', o)


def judge_program(rep, prog, name):
    with rep.guard(name):
        W = World(prog, PROGRAMS[name] + SEND, True)
        outs = [x for x in W.run('make') if not isinstance(x[1], Raise)]
        if not outs:
            raise Unsupported('no path through the program')
        for n, (st, o) in enumerate(outs):
            T = Transfer(rep, W, st)
            for x in T.objects():
                with rep.guard(f'{name}:{T.I.typeof(x).name}'):
                    T.judge(f'{name}/{n}/{x[1]}', x)


class Plain:
    def __init__(self, prog):
        self.prog = prog
        self.c = Client(prog, NAMED, names=True)
        self.c.I.inline_classes = set(self.c.I.inline_classes) | {'aliasClass', prog.cls('aliasClass').key}
        self.base = ('cls', prog.cls('named').key)

    def run(self, fn, *args, st=None):
        return self.c.run(fn, *args, st=st)


NAMED = '''
def make():
    a = aliasClass(name='first')
    a.alias = ['second', 'third']
    return a
''' + SEND


def judge_name(rep, prog):
    with rep.guard('name object'):
        W = Plain(prog)
        st, o = one(W.run('make'), 'make')
        Transfer(rep, W, st).judge('name object', o)


def check(prog, tier):
    rep = Report('C12', prog, tier, RULE, 'One object of every class of the library, and every object in the heaps of composites, swept simulations, '
                 'protocols and terms, is sent and restored.',
                 ['pickle restores what the state methods return', 'functions and states given by the user are not judged'])
    jobs = [(judge_named, (prog, c)) for c in named_classes(prog)] + [(judge_program, (prog, n)) for n in PROGRAMS] + [(judge_name, (prog,))]
    parallel(rep, jobs)
    return rep.finish(60)

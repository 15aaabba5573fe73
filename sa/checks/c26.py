"""C26: a copy of a system has the same structure and parameters, and shares none of them."""
from .histories import *
from ..client import show, generic, ratio

RULE = ('abstract interpretation of copying: the heap of the copy is compared attribute by attribute with the heap of the original along the '
        'correspondence of their sub-systems, and every assignment to a part of one leaves everything readable from the other unchanged')

LIMITS = [300, 300000]

READ = '''
def parts(x): return [y for y in x.subSys.values()]
def members(x): return [t for t in x.terms.values()]
def kind(x): return x.__class__
def values(x): return dict(dimension=x.dimension, dimensions=x.subSysDimensions, before=x._dimsBefore, after=x._dimsAfter, total=x._totalDim, composite=x._isComposite, coefficients=x._inpCoef, initialState=x.simulation._initialStateInput)
def term(t): return dict(operator=t.operator, order=t.order, frequency=t.frequency)
def owner(t): return t.qSystem
def holder(t): return t.superSys
def own(t): return [u for u in t.subSys.values()]
def hamiltonian(x): return x.totalHamiltonian
def state(x): return x.initialState
def simulation(x): return x.simulation
def steps(x): return x.simulation.stepSize, x.simulation.totalTime
'''

SYSTEMS = {
    'cavity': '''
def make():
    x = Cavity(frequency=f1, dimension=d1)
    x.initialState = 1
    return x''',
    'two terms': '''
def make():
    x = Cavity(frequency=f1, dimension=d1)
    x.createTerm(operator=create, frequency=f2, order=n1)
    x.initialState = [0, 1]
    return x''',
    'three terms': '''
def make():
    x = Cavity(frequency=f1, dimension=d1, order=n3)
    x.createTerm(operator=create, frequency=f2, order=n1)
    x.createTerm(operator=destroy, frequency=f3, order=n2)
    return x''',
    'removed first term': '''
def make():
    x = Cavity(frequency=f1, dimension=d1)
    x.createTerm(operator=create, frequency=f2, order=n1)
    x.removeTerm(x._firstTerm)
    return x''',
    'replaced terms': '''
def make():
    x = Cavity(frequency=f1, dimension=d1)
    x.resetTerms()
    x.createTerm(operator=create, frequency=f2, order=n1)
    x.createTerm(operator=destroy, frequency=f3)
    return x''',
    'spin': '''
def make():
    x = Spin(frequency=f1, jValue=2)
    x.createTerm(operator=Jx, frequency=f2)
    return x''',
    'qubit': '''
def make():
    x = Qubit(frequency=f1, operator=Jx)
    x.initialState = {0: a1, 1: a2}
    return x''',
    'coefficients': '''
def make():
    x = Cavity(frequency=f1, dimension=d1, _inpCoef=True)
    x.initialState = {0: a1, 1: a2}
    return x''',
    'generic': '''
def make():
    return QuantumSystem(frequency=f1, operator=number, dimension=d1, order=n1)''',
    'pauli': '''
def make():
    return QuantumSystem(dimension=2, operator=sigmax, frequency=f1)''',
    'no term': '''
def make():
    return QuantumSystem(dimension=d1)''',
    'zero frequency': '''
def make():
    return Cavity(frequency=0, dimension=d1)''',
    'pair': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    x = QuantumSystem(subSys=[q, a])
    x.createTerm(qSystem=[q, a], operator=[Jx, number], frequency=f3)
    x.createTerm(qSystem=[a, q], operator=[create, Jx], order=[n1, 1], frequency=f4)
    x.initialState = [0, 1]
    return x''',
    'pair with terms': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    b = Spin(frequency=f2, jValue=2)
    a.createTerm(operator=create, frequency=f5, order=n1)
    b.createTerm(operator=Jx, frequency=f6)
    x = QuantumSystem(subSys=[a, b])
    x.createTerm(qSystem=[b, a], operator=[Jx, number], frequency=f3)
    return x''',
    'triple': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    x = QuantumSystem(subSys=[a, b, c])
    x.createTerm(qSystem=[c, a], operator=[create, number], frequency=f4)
    x.createTerm(qSystem=[a, b, c], operator=[create, number, destroy], order=[n1, n2, n3], frequency=f5)
    return x''',
    'after removal': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    x = QuantumSystem(subSys=[a, b, c])
    x.createTerm(qSystem=[c, b], operator=[create, number], frequency=f4)
    x.removeSubSys(a)
    return x''',
    'same system twice': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    x = QuantumSystem(subSys=[a, b])
    x.createTerm(qSystem=[b, b], operator=[create, destroy], frequency=f4)
    return x''',
    'nested': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b])
    s.createTerm(qSystem=[a, b], operator=[create, number], frequency=f5)
    return QuantumSystem(subSys=[c, s])''',
    'nested coupling': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b])
    x = QuantumSystem(subSys=[c, s])
    x.createTerm(qSystem=[c, b], operator=[create, number], frequency=f5)
    x.createTerm(qSystem=[b, a], operator=[destroy, number], frequency=f6)
    return x''',
    'deeply nested': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    d = Cavity(frequency=f4, dimension=d4)
    s = QuantumSystem(subSys=[a, b])
    r = QuantumSystem(subSys=[s, c])
    x = QuantumSystem(subSys=[d, r])
    x.createTerm(qSystem=[d, a], operator=[create, number], frequency=f5)
    r.createTerm(qSystem=[b, c], operator=[create, number], frequency=f6)
    return x''',
    'evaluated': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    x = QuantumSystem(subSys=[a, b])
    x.createTerm(qSystem=[a, b], operator=[create, number], frequency=f3)
    x.totalHamiltonian
    return x''',
    'resized': '''
def make():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    x = QuantumSystem(subSys=[a, b])
    x.createTerm(qSystem=[a, b], operator=[create, number], frequency=f3)
    a.dimension = d4
    b.frequency = f4
    return x''',
    'simulated': '''
def make():
    x = Cavity(frequency=f1, dimension=d1)
    x.simulation.totalTime = t1
    x.simulation.stepSize = t2
    return x''',
}

COPY = '''
def copied(x): return x.copy()
def copiedTwice(x): return x.copy().copy()
'''
MULTIPLES = '''
def copied(x): return x, parts(1 * x)[0]
def three(x): return parts(3 * x)
def plus(x): return parts(x + x)
'''

CHANGES = '''
def change_frequency(x): x.frequency = g1
def change_order(x): x.order = 7
def change_operator(x): x.operator = Jy
def change_dimension(x): x.dimension = d9
def change_term(x): x.createTerm(operator=Jz, frequency=g2)
def change_resetTerms(x): x.resetTerms()
def change_removeTerm(x): x.removeTerm(members(x)[0])
def change_add(x): x.addSubSys(Cavity(frequency=g3, dimension=d8))
def change_removePart(x): x.removeSubSys(parts(x)[0])
def change_removeLast(x): x.removeSubSys(parts(x)[-1])
def change_reset(x): x.resetSubSys()
def change_couple(x): x.createTerm(qSystem=[parts(x)[0], parts(x)[1]], operator=[Jz, Jz], frequency=g4)
def change_coefficients(x): x._inpCoef = True
def change_initialState(x): x.initialState = 2
def change_initialStates(x): x.initialState = [1, 1]
def change_stepSize(x): x.simulation.stepSize = g5
def change_totalTime(x): x.simulation.totalTime = g6
def change_collect(x): QuantumSystem(subSys=[Cavity(frequency=g7, dimension=d7), x])
'''
TERMS = '''
def alter_frequency(t): t.frequency = g8
def alter_order(t): t.order = 9
def alter_orders(t): t.order = [8, 9]
def alter_operator(t): t.operator = Jy
def alter_operators(t): t.operator = [Jy, Jy]
'''


class Tree:
    """everything that can be read from a system, its terms and its sub-systems, in order"""

    def __init__(self, c, st, x):
        self.c = c
        self.systems, self.terms, self.out = [], [], []
        self.dig(st, x)
        self.hamiltonian = self.try_(st, 'hamiltonian', x, shape)
        self.steps = self.try_(st, 'steps', x, lambda v: v)
        self.state = self.try_(st, 'state', x, shape)

    def try_(self, st, fn, x, f):
        outs = {('raises', v.exc) if isinstance(v, Raise) else f(self.c.I.freeze(s, v)) for s, v in self.c.run(fn, x, st=st)}
        if len(outs) == 1:
            return outs.pop()
        if fn in ('hamiltonian', 'state'):
            return ('either',) + tuple(sorted(outs, key=repr))
        raise Unsupported(f'{fn}: {len(outs)} paths')

    def one(self, st, fn, x):
        return self.try_(st, fn, x, lambda v: v)

    def items(self, st, fn, x):
        v = self.one(st, fn, x)
        if v[0] != 'L':
            raise Unsupported(f'{fn}: {show(v)[:80]}')
        return v[1:]

    def dig(self, st, x):
        if x[0] != 'obj' or self.c.I.kind_of(x) != 'inst':
            raise Unsupported(f'not an object: {show(x)[:80]}')
        self.systems.append(x)
        self.out.append((x, 'class', self.one(st, 'kind', x)))
        v = self.one(st, 'values', x)
        if v[0] == 'D':
            for k, y in v[1:]:
                self.out.append((x, k[2], y))
        else:
            self.out.append((x, 'values', v))
        for t in self.items(st, 'members', x):
            self.term(st, x, t)
        for y in self.items(st, 'parts', x):
            self.out.append((x, 'sub-system', y))
            self.dig(st, y)

    def term(self, st, x, t):
        self.terms.append(t)
        v = self.one(st, 'term', t)
        self.out.append((x, 'term', t))
        if v[0] == 'D':
            for k, y in v[1:]:
                self.out.append((x, 'term ' + k[2], y))
        else:
            self.out.append((x, 'term', v))
        self.out.append((x, 'system of a term', self.one(st, 'owner', t)))
        self.out.append((x, 'holder of a term', self.one(st, 'holder', t)))
        for u in self.items(st, 'own', t):
            self.term(st, x, u)

    def all(self):
        return tuple(v for _, _, v in self.out), self.hamiltonian, self.state, self.steps

    def objects(self):
        return set(self.systems) | set(self.terms)


def rename(v, m):
    if v in m:
        return m[v]
    if generic(v) and not is_c(v):
        r = ratio(v)
        if r is not None:
            return ('ratio', r[0]) + tuple(sorted(r[1].items()))
    if is_c(v) and v[1] in ('int', 'float'):
        return ('ratio', v[2])
    if isinstance(v, tuple):
        return tuple(rename(y, m) if isinstance(y, tuple) else y for y in v)
    return v


def compare(rep, key, where_, a, b, what, skip=(), share=False):
    """the tree of a copy against the tree of the original"""
    if len(a.systems) != len(b.systems) or len(a.terms) != len(b.terms) or len(a.out) != len(b.out):
        rep.bad(key, where_, f'{what} has {len(b.systems) - 1} sub-systems and {len(b.terms)} terms instead of {len(a.systems) - 1} and {len(a.terms)}')
        return False
    m = dict(zip(a.systems, b.systems))
    m.update(zip(a.terms, b.terms))
    common = a.objects() & b.objects()
    if common and not share:
        rep.bad(key, where_, f'{what} contains {show(sorted(common)[0])} of the original itself')
        return False
    for (x, n, v), (y, k, w) in zip(a.out, b.out):
        rep.count('readings compared')
        if n != k:
            raise Unsupported('different readings')
        if (n, a.systems.index(x)) in skip:
            continue
        if rename(v, m) != rename(w, {}):
            rep.bad(key, where_, f'{what}: {n} of part {a.systems.index(x)} is {show(w)[:150]} instead of {show(rename(v, m))[:150]}')
            return False
    for n in ('hamiltonian', 'state'):
        if (n, 0) not in skip and getattr(a, n) != getattr(b, n):
            rep.bad(key, where_, f'{what}: its {n} is {say(getattr(b, n))} instead of {say(getattr(a, n))}')
            return False
    return True


def say(v):
    if v[0] == 'either':
        return ' or '.join(say(x) for x in v[1:])
    return f'an error ({v[1]})' if v[0] == 'raises' else text(v)[:200]


def client(prog, src):
    c = Client(prog, READ + src, path_limit=LIMITS[0], step_limit=LIMITS[1], hooks=adjoint_hook)
    return c


def one(outs, what):
    if len(outs) != 1:
        raise Unsupported(f'{what}: {len(outs)} paths')
    s, v = outs[0]
    if isinstance(v, Raise):
        raise Stopped(v)
    return s, v


def made(prog, src):
    c = client(prog, src + COPY + CHANGES + TERMS + WITH + MANY)
    st, x = one(c.run('make'), 'make')
    return c, st, x


WITH = '''
def with_frequency(x): return x.copy(frequency=with_frequency_)
def with_initialState(x): return x.copy(initialState=with_initialState_)
def given_frequency(x): return x.frequency
def given_initialState(x): return x.simulation._initialStateInput
def with_alias(x): return x.copy(alias='other')
'''
MANY = '''
def many(x): return parts(3 * x)
def double(x): return parts(2 * x)
def twice(x): return parts(x + x)
'''


def judge_copy(rep, prog, name, src):
    pl = place(prog, 'QSystem.QuantumSystem.copy')
    with rep.guard(name):
        c, st, x = made(prog, src)
        a = Tree(c, st, x)
        for how, seq in (('copy', ['copied']), ('copy of a copy', ['copiedTwice'])):
            key = f'{name}:{how}'
            with rep.guard(key):
                try:
                    s = st
                    for fn in seq:
                        s, y = one(c.run(fn, x, st=s), fn)
                except Stopped as e:
                    rep.bad(key, pl, f'copying {name} raises {e.raised.exc}')
                    continue
                b = Tree(c, s, y)
                if Tree(c, s, x).all() != a.all():
                    rep.bad(key, pl, f'copying {name} changes the original')
                elif compare(rep, key, pl, a, b, f'the {how} of {name}'):
                    rep.ok(key, f'{len(a.systems)} systems, {len(a.terms)} terms, {len(a.out)} readings')
        for fn, skip in (('with_frequency', {('term frequency', 0), ('hamiltonian', 0), ('term', 0)}), ('with_initialState', {('initialState', 0), ('state', 0)}),
                         ('with_alias', set())):
            key = f'{name}:{fn.replace("_", " ")}'
            with rep.guard(key):
                outs = c.run(fn, x, st=st)
                if any(isinstance(v, Raise) for _, v in outs):
                    rep.count('not possible')
                    continue
                s, y = one(outs, fn)
                if Tree(c, s, x).all() != a.all():
                    rep.bad(key, pl, f'copying {name} with {fn[5:]} given changes the original')
                    continue
                b = Tree(c, s, y)
                if fn == 'with_frequency':
                    if len(a.terms) != len(b.terms):
                        rep.count('not comparable')
                        continue
                if fn != 'with_alias' and points(c.I.freeze(s, one(c.run(fn.replace('with', 'given'), y, st=s), fn)[1])) != {fn + '_'}:
                    rep.bad(key, pl, f'{fn[5:]} given to the copy of {name} is not the one of the copy')
                    continue
                if compare(rep, key, pl, a, b, f'the copy of {name} with {fn[5:]} given', skip):
                    rep.ok(key, 'same otherwise')
        for fn, n in (('many', 3) if len(a.systems) == 1 else ('double', 2), ('twice', 2)):
            key = f'{name}:{fn}'
            with rep.guard(key):
                # the original becomes the first member: members are compared with a copy made before, in the same way
                outs = c.run(fn, x, st=st)
                if any(isinstance(v, Raise) for _, v in outs):
                    rep.bad(key, place(prog, 'QSystem.QuantumSystem.__rmul__' if fn != 'twice' else 'QSystem.QuantumSystem.__add__'),
                            f'{f"{n} * " if fn != "twice" else "itself + "}{name} raises {[v.exc for _, v in outs if isinstance(v, Raise)]}')
                    continue
                s, v = one(outs, fn)
                els = c.I.freeze(s, v)
                if els[0] != 'L':
                    raise Unsupported(show(els)[:80])
                els = els[1:]
                if a.out[0][2] and x not in els:
                    rep.count('composites extended by a copy')
                    continue
                if len(els) != n:
                    rep.bad(key, pl, f'{len(els)} systems instead of {n} in {fn} of {name}')
                    continue
                first = Tree(c, s, els[0])
                good = True
                for i, y in enumerate(els[1:]):
                    skip = {(k, j) for k in ('before', 'after', 'total', 'dimensions') for j in range(len(a.systems))} | {('hamiltonian', 0)}
                    good = good and compare(rep, key, pl, first, Tree(c, s, y), f'member {i + 2} of {fn} {name}', skip)
                if good:
                    rep.ok(key, f'{n} members')


def judge_changes(rep, prog, name, src, back):
    """every change of every part of one of the two, read from the other"""
    pl = place(prog, 'QSystem.QuantumSystem.copy')
    with rep.guard(name):
        c, st, x = made(prog, src)
        try:
            st, y = one(c.run('copied', x, st=st), 'copied')
        except Stopped:
            return
        if back:
            x, y = y, x
        a, b = Tree(c, st, x), Tree(c, st, y)
        before = a.all()
        work_ = [(f, i, s) for f in c.funcs if f.startswith('change_') for i, s in enumerate(b.systems)]
        work_ += [(f, i, t) for f in c.funcs if f.startswith('alter_') for i, t in enumerate(b.terms)]
        for f, i, o in work_:
            key = f'{name}:{"original" if back else "copy"} {f.replace("_", " ")} {i}'
            with rep.guard(key):
                done = [s for s, v in c.run(f, o, st=st) if not isinstance(v, Raise)]
                if not done:
                    rep.count('not possible')
                    continue
                for s in done:
                    after = Tree(c, s, x)
                    if after.all() != before:
                        rep.bad(key, pl, f'{f.replace("_", " ")} of {"term" if f[0] == "a" else "part"} {i} of the {"original" if back else "copy"} of '
                                f'{name} changes the {"copy" if back else "original"}: {different(a, after)}')
                        break
                else:
                    rep.ok(key, 'the other unchanged')


def different(a, b):
    for (x, n, v), (y, k, w) in zip(a.out, b.out):
        if (x, n, v) != (y, k, w):
            return f'{n} of part {a.systems.index(x)} was {show(v)[:100]} and is {show(w)[:100]}'
    for n in ('hamiltonian', 'state', 'steps'):
        if getattr(a, n) != getattr(b, n):
            return f'its {n}'
    return 'other parts'


def check(prog, tier):
    rep = Report('C26', prog, tier, RULE, 'Client programs that build single, composite and nested systems, copy them, multiply them and add them to '
                 'themselves; every attribute of every system and term of the original and the copy is read from the abstract heap.',
                 ['the values not listed in a program are symbols', 'the time dependence of terms and the simulation times are not part of a copy'])
    LIMITS[:] = [300, 300000] if tier == 'quick' else [3000, 3000000]
    jobs = []
    for name, src in SYSTEMS.items():
        rep.count('programs')
        jobs.append((judge_copy, (prog, name, src)))
        if tier != 'quick' or name != 'deeply nested':
            jobs.append((judge_changes, (prog, name, src, False)))
        if tier != 'quick':
            jobs.append((judge_changes, (prog, name, src, True)))
    parallel(rep, jobs)
    return rep.finish(40)

"""C20: dimension information in a composite is consistent after every change."""
from .histories import *
from ..client import ratio, show

RULE = ('monomial normal forms of the dimensions before and after every system of a composite, computed from the code, against the products '
        'of the dimensions to its left and right in the abstract heap')

FLAT = '''
def setup():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    q = Qubit(frequency=f3)
    s = QuantumSystem()
    s.addSubSys(a)
    s.addSubSys(b)
    s.addSubSys(q)
    x = Cavity(frequency=f4, dimension=d4)
    y = Spin(frequency=f5, dimension=d5)
    return a, b, q, s, x, y
def change_add(e): e[3].addSubSys(e[4])
def change_addTwo(e): e[3].addSubSys([e[4], e[5]])
def change_plus(e): e[3] + e[4] + e[5]
def change_subSys(e): e[3].subSys = e[4]
def change_create(e): e[3].createSubSys(Cavity, dimension=d6, frequency=f6)
def change_resizeFirst(e): e[0].dimension = d7
def change_resizeMiddle(e): e[1].dimension = d8
def change_resizeTwice(e):
    e[0].dimension = d7
    e[0].dimension = d8
def change_jValue(e):
    e[3].addSubSys(e[5])
    e[5].jValue = 2
def change_removeFirst(e): e[3].removeSubSys(e[0])
def change_removeMiddle(e): e[3].removeSubSys(e[1])
def change_minusLast(e): e[3] - e[2]
def change_removeTwo(e): e[3] - [e[0], e[2]]
def change_reset(e): e[3].resetSubSys()
def change_again(e): e[3].addSubSys(e[0])
def change_moveToEnd(e):
    e[3].removeSubSys(e[0])
    e[3].addSubSys(e[0])
def change_nestIn(e): QuantumSystem(subSys=[e[4], e[3]])
def change_nestInFirst(e): QuantumSystem(subSys=[e[3], e[4]])
def change_addNested(e): e[3].addSubSys(QuantumSystem(subSys=[e[4], e[5]]))
def change_evaluate(e):
    e[3].totalHamiltonian
    e[3].dimension
'''

NESTED = '''
def setup():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = a + b
    s = QuantumSystem(subSys=[a, b]) if s is None else s
    c = Cavity(frequency=f3, dimension=d3)
    g = Cavity(frequency=f6, dimension=d6)
    r = QuantumSystem()
    r.addSubSys(c)
    r.addSubSys(g)
    S = QuantumSystem(subSys=[s, r])
    p = Qubit(frequency=f5)
    T = QuantumSystem(subSys=[p, S])
    x = Cavity(frequency=f4, dimension=d4)
    m = QuantumSystem(subSys=[Cavity(frequency=f7, dimension=d7), Cavity(frequency=f8, dimension=d8)])
    return a, b, s, c, g, r, S, p, T, x, m
def change_addInner(e): e[2].addSubSys(e[9])
def change_addSecondInner(e): e[5].addSubSys(e[9])
def change_addMiddle(e): e[6].addSubSys(e[9])
def change_addTop(e): e[8].addSubSys(e[9])
def change_nestInner(e): e[2].addSubSys(e[10])
def change_nestMiddle(e): e[6].addSubSys(e[10])
def change_nestTop(e): e[8] + e[10]
def change_resizeInner(e): e[0].dimension = d9
def change_resizeOther(e): e[3].dimension = d9
def change_resizeBoth(e):
    e[1].dimension = d9
    e[4].dimension = d10
def change_removeInner(e): e[2].removeSubSys(e[0])
def change_removeFromTop(e): e[8].removeSubSys(e[0])
def change_removeFromMiddle(e): e[6] - e[4]
def change_removeComposite(e): e[6].removeSubSys(e[2])
def change_removeCompositeFromTop(e): e[8].removeSubSys(e[5])
def change_removeMiddle(e): e[8].removeSubSys(e[6])
def change_removeFirst(e): e[8].removeSubSys(e[7])
def change_removeTwo(e): e[6] - [e[0], e[3]]
def change_resetInner(e): e[2].resetSubSys()
def change_resetTop(e): e[8].resetSubSys()
def change_evaluate(e): e[8].totalHamiltonian
'''

LATE = '''
def setup():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    q = Qubit(frequency=f3)
    u = QuantumSystem()
    v = QuantumSystem()
    w = QuantumSystem()
    n = Cavity(frequency=f4)
    return a, b, q, u, v, w, n
def change_bottomUp(e):
    e[3].addSubSys([e[0], e[1]])
    e[4].addSubSys(e[3])
    e[5].addSubSys([e[2], e[4]])
def change_topDown(e):
    e[5].addSubSys(e[2])
    e[5].addSubSys(e[4])
    e[4].addSubSys(e[3])
    e[3].addSubSys(e[0])
    e[3].addSubSys(e[1])
def change_topDownReversed(e):
    e[5].addSubSys(e[4])
    e[5].addSubSys(e[2])
    e[4].addSubSys(e[3])
    e[3].addSubSys(e[0])
    e[4].addSubSys(e[1])
def change_middleFirst(e):
    e[4].addSubSys(e[3])
    e[3].addSubSys(e[0])
    e[5].addSubSys(e[4])
    e[3].addSubSys(e[1])
    e[5].addSubSys(e[2])
def change_lateDimension(e):
    e[3].addSubSys([e[0], e[6], e[1]])
    e[6].dimension = d5
def change_lateDimensionNested(e):
    e[3].addSubSys([e[6], e[0]])
    e[4].addSubSys([e[1], e[3]])
    e[6].dimension = d5
def change_plus(e): e[0] + e[1]
def change_plusThree(e): e[0] + e[1] + e[2]
def change_plusComposite(e): (e[0] + e[1]) + (e[2] + e[6])
def change_plusSelf(e): e[0] + e[0]
def change_times(e): 3 * e[0]
def change_plusEmpty(e): e[3] + e[0]
'''

REJECT = '''
def setup():
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = QuantumSystem(subSys=[a, b])
    S = QuantumSystem(subSys=[s])
    T = QuantumSystem(subSys=[S])
    u = QuantumSystem()
    U = QuantumSystem(subSys=[T])
    V = QuantumSystem(subSys=[U])
    return a, b, s, S, T, u, U, V
def reject_itself(e): e[2].addSubSys(e[2])
def reject_direct(e): e[2].addSubSys(e[3])
def reject_deep(e): e[2].addSubSys(e[4])
def reject_deeper(e): e[3].addSubSys(e[4])
def reject_deepest(e): e[2].addSubSys(e[6])
def reject_deepest2(e): e[2].addSubSys(e[7])
def reject_empty(e): e[5].addSubSys(e[5])
def reject_single(e): e[0].addSubSys(e[5])
def reject_singleNested(e): e[0].addSubSys(e[4])
def reject_subSys(e): e[2].subSys = e[4]
def reject_emptyThenUp(e):
    e[5].addSubSys(e[4])
    e[3].addSubSys(e[5])
'''

PROGRAMS = dict(flat=FLAT, nested=NESTED, late=LATE)


def subs(I, st, x):
    d = I.sget(st, (x, '_qBase__subSys'))
    c = I.content(st, d) if d is not None else ('D',)
    if c[0] != 'D':
        raise Unsupported('sub-systems of unknown number')
    return [v for _, v in c[1:]]


def mono(t):
    r = ratio(t)
    if r is None:
        raise Unsupported(f'dimension {show(t)[:120]}')
    return (float(r[0]), tuple(sorted(r[1].items())))


def mul(a, b):
    d = dict(a[1])
    for k, e in b[1]:
        d[k] = d.get(k, 0) + e
    return (a[0] * b[0], tuple(sorted((k, e) for k, e in d.items() if e)))


ONE = (1.0, ())


def say(m):
    out = [k if e == 1 else f'{k}^{e}' for k, e in m[1]]
    if m[0] != 1 or not out:
        out.insert(0, f'{m[0]:g}')
    return '*'.join(out)


class Dims(Scenario):
    """a scenario with the tree of systems read from the heap"""

    def systems(self, st):
        I = self.c.I
        out = []
        for k, v in st.store.items():
            if len(k) == 2 and k[1] == '_QuantumSystem__dimension' and isinstance(k[0], tuple) and k[0][0] == 'obj':
                out.append(k[0])
        return sorted(set(out))

    def check(self, st):
        """list of (system, attribute, found, expected) that differ, and the number of comparisons"""
        I = self.c.I
        wrong, n = [], 0
        allsys = self.systems(st)
        kids = {x: subs(I, st, x) for x in allsys}
        parent = {}
        for x, ks in kids.items():
            for k in ks:
                if k in parent:
                    wrong.append((x, 'membership', I.sget(st, (k, '_named__name')), 'one composite'))
                parent[k] = x
        dim = {}

        def dimension(x, seen=()):
            if x in seen:
                raise Unsupported('circular')
            if x not in dim:
                if kids[x]:
                    r = ONE
                    for k in kids[x]:
                        r = mul(r, dimension(k, seen + (x,)))
                    dim[x] = r
                elif I.sget(st, (x, '_QuantumSystem__compSys')) == TRUE:
                    dim[x] = ONE
                else:
                    dim[x] = mono(I.sget(st, (x, '_QuantumSystem__dimension')))
            return dim[x]
        for x in allsys:
            b, a, y = ONE, ONE, x
            while y in parent:
                p = parent[y]
                i = kids[p].index(y)
                for k in kids[p][:i]:
                    b = mul(b, dimension(k))
                for k in kids[p][i + 1:]:
                    a = mul(a, dimension(k))
                y = p
            sup = I.sget(st, (x, '_qBase__superSys'))
            for attr, want in (('_dimsBefore', b), ('_dimsAfter', a), ('dimension', dimension(x)), ('_totalDim', mul(mul(b, a), dimension(x)))):
                n += 1
                outs = I.getattr(x, attr, st.copy())
                s, v = self.one(outs)
                if mono(v) != want:
                    wrong.append((x, attr, say(mono(v)), say(want)))
            if (x in parent) != (sup not in (None, ('c', 'NoneType', None))) or (x in parent and sup != parent[x]):
                wrong.append((x, 'superSys', show(sup) if sup else 'None', 'the composite it belongs to'))
        return wrong, n

    def label(self, st, x):
        v = self.c.I.sget(st, (x, '_named__name'))
        return v[2] if v is not None else show(x)


def embedded(S, st, rep, key):
    """every operator in the Hamiltonians is embedded with the dimensions of its own system"""
    I = S.c.I
    for x in S.systems(st):
        if subs(I, st, x):
            continue
        try:
            b, a = (mono(S.one(I.getattr(x, n, st.copy()))[1]) for n in ('_dimsBefore', '_dimsAfter'))
            S.c.emb = []
            s, v = S.one(I.getattr(x, 'totalHamiltonian', st.copy()))
        except Unsupported:
            continue
        from ..interp import subterms
        for t in subterms(I.freeze(s, v)):
            if t and t[0] == 'emb':
                rep.count('embedded operators')
                if (mono(t[2]), mono(t[3])) != (b, a):
                    return (f'an operator of {S.label(st, x)} is embedded with dimensions {say(mono(t[2]))} before and '
                            f'{say(mono(t[3]))} after instead of {say(b)} and {say(a)}')
    return None


def emb_hook(I, func, args, kwargs, st, line):
    from ..loader import Func
    if isinstance(func, Func) and func.key == 'quanguru.QuantumToolbox.operators.compositeOp':
        names = [x.arg for x in func.node.args.args]
        d = dict(zip(names, args))
        d.update(dict(kwargs))
        vals = [d.get(n, ('c', 'int', 0)) for n in names[:3]]
        one = ('c', 'int', 1)
        vals[1:] = [one if v == ('c', 'int', 0) else v for v in vals[1:]]
        return [(st, ('emb',) + tuple(I.freeze(st, v) for v in vals))]
    return None


RESIZING = ('resize', 'jValue', 'Dimension')


def leaves(S, st):
    return {x: S.c.I.sget(st, (x, '_QuantumSystem__dimension')) for x in S.systems(st) if not subs(S.c.I, st, x)
            and S.c.I.sget(st, (x, '_QuantumSystem__compSys')) != TRUE}


def resized(S, old, st):
    """no single system changes its own dimension when it is added, moved or removed"""
    new = leaves(S, st)
    for x, d in leaves(S, old).items():
        if x in new and mono(new[x]) != mono(d):
            return f'the dimension of {S.label(st, x)} became {say(mono(new[x]))} instead of staying {say(mono(d))}'
    return None


def judge_dims(rep, S, m1, m2s):
    for m2 in [None] + m2s:
        key = f'{S.name}:{m1[7:]}' + (f' then {m2[7:]}' if m2 else '')
        try:
            st, _ = S.do(S.s0, m1)
            if m2:
                st, _ = S.do(st, m2)
        except Stopped as e:
            if m2:
                rep.count('second changes that raise')
            else:
                rep.bad(key, blame(S.c.p, S, m1), f'{m1[7:]} in {S.name} raises {e.raised.exc}')
            continue
        except Unsupported as e:
            if m2:
                rep.count('second changes not followed')
            else:
                rep.undecided(key, e)
            continue
        with rep.guard(key):
            wrong, n = S.check(st)
            rep.count('dimensions compared', n)
            e = embedded(S, st, rep, key)
            if not any(w in key for w in RESIZING):
                e = e or resized(S, S.s0, st)
            if any(w[1] == 'membership' for w in wrong):
                if not m2:
                    raise Unsupported('a system in two composites')
                rep.count('pairs putting a system into two composites, not judged')
                continue
            if wrong:
                x, attr, got, want = wrong[0]
                rep.bad(key, blame(S.c.p, S, m2 or m1), f'in {S.name}, after {key.split(":")[1]}, {attr} of {S.label(st, x)} is '
                        f'{got} instead of {want} ({len(wrong)} differences)')
            elif e:
                rep.bad(key, blame(S.c.p, S, m2 or m1), f'in {S.name}, after {key.split(":")[1]}, {e}')
            else:
                rep.ok(key, f'{n} dimensions')


def judge_reject(rep, S, m):
    key = f'circular:{m[7:]}'
    with rep.guard(key):
        outs = S.c.run(m, S.env, st=S.s0)
        if all(isinstance(v, Raise) and not v.implicit for _, v in outs):
            rep.ok(key, 'rejected')
            return
        if len(outs) == 1 and not isinstance(outs[0][1], Raise):
            rep.bad(key, blame(S.c.p, S, m), f'{m[7:]}: the addition is accepted although it makes a system a part of itself or of a '
                    'single system')
            return
        raise Unsupported(f'{len(outs)} paths')


class RejectScenario(Dims):
    pass


def check(prog, tier):
    rep = Report('C20', prog, tier, RULE, 'Every way of adding, nesting, resizing and removing systems, and every pair of them, in client '
                 'programs over the real classes read by abstract interpretation; dimensions are symbols, so the comparison is between '
                 'monomials. Circular additions at any depth have to be rejected.',
                 ['dimensions are pairwise different symbols, qubits have dimension two',
                  'integer division of a product by one of its factors is exact'])
    jobs = []
    for name, src in PROGRAMS.items():
        with rep.guard(name):
            S = Dims(prog, name, src)
            S.c.extra = emb_hook
            rep.count('programs')
            jobs += [(judge_dims, (S, m, list(S.muts) if tier == 'thorough' else [])) for m in S.muts]
    with rep.guard('circular'):
        S = RejectScenario(prog, 'circular', REJECT)
        jobs += [(judge_reject, (S, m)) for m in S.c.funcs if m.startswith('reject_')]
    parallel(rep, jobs)
    return rep.finish(60)

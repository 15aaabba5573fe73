"""C05: generators, super-operators, vectorisation, open evolution and open gates against one specification."""
from .common import *
from ..scen import Scene
from ..algebra import Algebra, Unknown, madd, mscale, mmulmat, pconst, mkey, show_mat

RULE = ('algebraic normal form of every returned super-operator compared with the column-stacked Lindblad form '
        '-i(1(x)H - H^T(x)1) + sum rate (B^T(x)A - (1(x)BA + (BA)^T(x)1)/2)')
T = 'quanguru.QuantumToolbox.'


class Spec:
    def __init__(self, mats, real=()):
        self.A = Algebra(mats=mats, real=real)
        self.one = {(): pconst(1)}

    def m(self, t):
        return self.A.mat(t)

    def pre(self, a):
        return self.A.kron(self.one, a)

    def post(self, a):
        return self.A.kron(self.A.transpose(a), self.one)

    def both(self, a, b):
        return self.A.kron(self.A.transpose(b), a)

    def diss(self, a, b):
        ba = mmulmat(b, a)
        return madd(self.both(a, b), mscale(pconst(-0.5), madd(self.pre(ba), self.post(ba))))

    def lind(self, h, ops):
        r = {}
        if h is not None:
            r = mscale(pconst(-1j), madd(self.pre(h), mscale(pconst(-1), self.post(h))))
        for rate, d in ops:
            r = madd(r, mscale(rate, d))
        return r


def same(a, b):
    return mkey(a) == mkey(b)


def interp(prog):
    I = Interp(prog, path_limit=3000)

    def ext(I2, q, args, kwargs, st, line):
        if q in ('scipy.sparse.issparse', 'scipy.sparse.isspmatrix'):
            return [(st, ('sym', 'SPARSE'))]        # formats are the subject of C02
        return None
    I.ext_hook = ext
    I.kinds[('sym', 'SPARSE')] = frozenset('TF')
    return I


def run(prog, rep, name, func, args, kwargs, want, A, note='', I=None, feasible=None, st=None):
    I = I or interp(prog)
    try:
        outs = I.run(func, args, kwargs, st)
    except Unsupported as e:
        rep.undecided(name, e)
        return
    n = 0
    unk = None
    for s, v in outs:
        if isinstance(v, Raise):
            continue
        if not A.plausible(s) or (feasible is not None and not feasible(s)):
            continue
        try:
            got = A.mat(I.freeze(s, v))
        except Unknown as e:
            unk = e
            continue
        n += 1
        if not same(got, want):
            rep.bad(f'form:{short(func.key)}:{note}', where(func),
                    f'{name}: computes {show_mat(got)[:300]} instead of {show_mat(want)[:300]}')
            return
    if unk is not None:
        rep.undecided(name, unk)
    elif n:
        rep.ok(name, f'{n} paths: {show_mat(want)[:160]}')
    else:
        rep.undecided(name, 'no path returns')
    rep.count('paths', n)


def superops(prog, rep):
    E = T + 'evolution.'
    a, b, h = ('sym', 'A'), ('sym', 'B'), ('sym', 'H')
    S = Spec([a, b, h])

    def I():
        i = interp(prog)
        for x in (a, b, h):
            i.kinds[x] = frozenset('o')
        return i
    for nm, want, args in (('_preSO', S.pre(S.m(a)), [a]), ('_postSO', S.post(S.m(a)), [a]),
                           ('_prepostSO', S.both(S.m(a), S.m(b)), [a, b])):
        with rep.guard(nm):
            run(prog, rep, nm, prog.fn(E + nm), args, (), want, S.A, I=I())
    with rep.guard('dissipator'):
        f = prog.fn(E + 'dissipator')
        run(prog, rep, 'dissipator(A)', f, [a], (), S.diss(S.m(a), S.A.adjoint(S.m(a))), S.A, 'A', I())
        run(prog, rep, 'dissipator(A, B)', f, [a, b], (), S.diss(S.m(a), S.m(b)), S.A, 'AB', I())
        run(prog, rep, 'dissipator(A, _double)', f, [a], (('_double', TRUE),),
            mscale(pconst(2), S.diss(S.m(a), S.A.adjoint(S.m(a)))), S.A, 'double', I())


def generators(prog, rep, tier):
    E = T + 'evolution.'
    h = ('sym', 'H')
    c = [('sym', f'c{i}') for i in range(3)]
    p = [('sym', f'p{i}') for i in range(2)]
    q = [('sym', f'q{i}') for i in range(2)]
    r = [('sym', f'r{i}') for i in range(4)]
    t = ('sym', 't')
    S = Spec([h] + c + p + q)
    pair = ('tup', p[0], q[0])
    pair1 = ('tup', p[1], q[1])
    lists = [[c[0]], [pair], [c[0], c[1]], [c[0], pair], [pair, c[0]], []]
    if tier == 'thorough':
        lists += [[c[0], c[1], c[2]], [pair, pair1], [c[0], pair, c[1]]]

    def dis(x):
        return S.diss(S.m(x[1]), S.m(x[2])) if x[0] == 'tup' else S.diss(S.m(x), S.A.adjoint(S.m(x)))

    def feasible(s):
        # an operator cannot have the dimension of the super-operator when it has that of the Hamiltonian
        for k, v in s.facts.items():
            if k[0] == 'eq' and v is False and 'shape' in repr(k):
                return False
        return True
    for fname, kind in (('Liouvillian', 'gen'), ('LiouvillianExp', 'exp'), ('LiouvillianExp', 'noexp')):
        f = prog.fn(E + fname)
        for ham in (h, NONE):
            for ops in lists:
                if ham == NONE and not ops:
                    continue
                for rates in (None, [r[i] for i in range(len(ops))]):
                    if rates == []:
                        continue
                    nm = f'{fname}:{kind}:{"H" if ham == h else "-"}:{"".join("p" if x[0] == "tup" else "c" for x in ops)}:' \
                         f'{"r" if rates else "-"}'
                    with rep.guard(nm):
                        I = interp(prog)
                        for x in [h] + c + p + q:
                            I.kinds[x] = frozenset('o')
                        st = State()
                        lo = I.new_list(st, ('L',) + tuple(ops))
                        lr = I.new_list(st, ('L',) + tuple(rates)) if rates else NONE
                        kw = [('Hamiltonian', ham), ('collapseOperators', lo), ('decayRates', lr)]
                        want = S.lind(S.m(h) if ham == h else None,
                                      [(S.A.sc(rates[i]) if rates else pconst(1), dis(x)) for i, x in enumerate(ops)])
                        if kind != 'gen':
                            kw.append(('timeStep', t))
                            if kind == 'exp':
                                want = S.A.expm(mscale(S.A.sc(t), want))
                            else:
                                kw.append(('exp', FALSE))
                        for x in ops:       # plain operators are no tuples
                            if x[0] != 'tup':
                                st.facts[('I-', x)] = frozenset({('ext', 'builtins.tuple')})
                        run(prog, rep, nm, f, (), tuple(kw), want, S.A, nm, I, feasible, st)
    with rep.guard('LiouvillianExp:closed'):
        I = interp(prog)
        I.kinds[h] = frozenset('o')
        want = S.A.expm(mscale(S.A.sc(t), mscale(pconst(-1j), S.m(h))))
        run(prog, rep, 'LiouvillianExp without collapse operators', prog.fn(E + 'LiouvillianExp'), (),
            (('Hamiltonian', h), ('timeStep', t)), want, S.A, 'closed', I)


# ---- vectorisation: index maps ---------------------------------------------------------------------------
def flatorder(t, src, shape_n):
    """t as a map from its own row-major index structure to that of src: returns 'C' or 'F' if t is the n*n x 1 stacking of
    the square matrix src in row- or column-major order, None if unknown"""
    def order(node):
        """(base, transposed)"""
        tr = False
        while True:
            if node[0] == 'attr' and node[2] == 'T':
                tr = not tr
                node = node[1]
            elif node[0] == 'mcall' and node[2] == 'transpose' and not node[3]:
                tr = not tr
                node = node[1]
            elif node[0] == 'call' and node[1] == ('ext', 'numpy.transpose') and len(node[2]) == 1:
                tr = not tr
                node = node[2][0]
            elif node[0] == 'mcall' and node[2] in ('copy', 'tocsc', 'tocsr', 'toarray') and not node[3]:
                node = node[1]
            else:
                return node, tr
    return order(t)


def reshape_parts(t):
    """(base, dims tuple, order) of a reshape node"""
    if t[0] == 'mcall' and t[2] == 'reshape':
        a, kw, base = list(t[3]), dict(t[4]), t[1]
    elif t[0] == 'call' and t[1] == ('ext', 'numpy.reshape'):
        a, kw, base = list(t[2][1:]), dict(t[3]), t[2][0]
    else:
        return None
    if len(a) == 1 and a[0][0] in ('tup', 'L'):
        a = list(a[0][1:])
    order = kw.get('order', ('c', 'str', 'C'))
    if order[0] != 'c' or order[2] not in ('C', 'F'):
        return None
    return base, a, order[2]


def vectorise(prog, rep):
    m = ('sym', 'rho')
    f = prog.fn(T + 'states.mat2Vec')
    g = prog.fn(T + 'states.vec2Mat')
    I = interp(prog)
    for s, v in I.run(f, [m]):
        if isinstance(v, Raise):
            continue
        v = I.freeze(s, v)
        outer, tr = flatorder(v, m, None)
        p = reshape_parts(outer)
        if p is None:
            rep.undecided('mat2Vec', show(v)[:100])
            continue
        base, dims, order = p
        src, tr2 = flatorder(base, m, None)
        if src != m:
            rep.undecided('mat2Vec', show(v)[:100])
            continue
        # dims (k, 1): a column; (1, k) transposed: a column as well
        one = [d for d in dims if d == C(1)]
        if len(dims) != 2 or len(one) != 1:
            rep.undecided('mat2Vec', 'dimensions ' + ', '.join(map(show, dims)))
            continue
        column = (dims[1] == C(1)) != tr
        # the vector lists src in row-major ('C') order of src or its transpose
        stacking = 'F' if (order == 'F') != tr2 else 'C'
        if column and stacking == 'F':
            rep.ok('mat2Vec', 'columns stacked: ' + show(v))
        else:
            rep.bad('stack:mat2Vec', where(f), f'{show(v)} {"stacks rows" if stacking == "C" else "is not a column"}')
    I = interp(prog)
    vec = ('sym', 'vec')
    for s, v in I.run(g, [vec]):
        if isinstance(v, Raise):
            continue
        v = I.freeze(s, v)
        outer, tr = flatorder(v, vec, None)
        p = reshape_parts(outer)
        if p is None or p[0] != vec or len(p[1]) != 2 or (p[1][0] != p[1][1] and C(-1) not in p[1]):
            rep.undecided('vec2Mat', show(v)[:100])
            continue
        stacking = 'F' if (p[2] == 'F') != tr else 'C'
        if stacking == 'F':
            rep.ok('vec2Mat', 'columns restored: ' + show(v))
        else:
            rep.bad('stack:vec2Mat', where(g), f'{show(v)} reads the vector row by row')


def open_evolution(prog, rep):
    """evolveOpen: each step applies the exponential to the vector of the previous step"""
    f = prog.fn(T + 'evolution.evolveOpen')
    I = interp(prog)
    base_ext = I.ext_hook
    opaque = {'LiouvillianExp', 'mat2Vec', 'vec2Mat', 'densityMatrix'}
    seen = []

    def hook(I2, func, args, kwargs, st, line):
        if isinstance(func, Func) and func.name in opaque and func is not f:
            s = st.copy()
            if func.name == 'LiouvillianExp':
                names = params_of(func)
                d = dict(zip(names, (I2.freeze(s, a) for a in args)))
                d.update({k: I2.freeze(s, a) for k, a in kwargs})
                seen.append(d)
                return [(s, ('sym', 'E'))]
            return [(s, ('f', func.name, I2.freeze(s, args[0])))]
        return None
    I.call_hook = hook
    rho = ('sym', 'rho0')
    h, ops, rates = ('sym', 'H'), ('sym', 'ops'), ('sym', 'rates')
    kw = (('initialState', rho), ('totalTime', C(3)), ('timeStep', C(1)), ('Hamiltonian', h), ('collapseOperators', ops),
          ('decayRates', rates))
    bad = und = n = 0
    for s, v in I.run(f, (), kw):
        if isinstance(v, Raise):
            continue
        items = I.known_items(v, s)
        if items is None:
            und += 1
            continue
        n += 1
        start = [rho, ('f', 'densityMatrix', rho)]
        items = [I.freeze(s, x) for x in items]

        def norm(t):
            if t[0] == 'f' and t[1] == 'mat2Vec':
                x = norm(t[2])
                return x[2] if x[0] == 'f' and x[1] == 'vec2Mat' else ('f', 'mat2Vec', x)
            if t[0] == 'f' and t[1] == 'vec2Mat':
                x = norm(t[2])
                return x[2] if x[0] == 'f' and x[1] == 'mat2Vec' else ('f', 'vec2Mat', x)
            if t[0] == 'bin' and t[1] == '@':
                return ('bin', '@', norm(t[2]), norm(t[3]))
            return t
        if items[0] not in start:
            bad += 1
            continue
        vec = ('f', 'mat2Vec', items[0])
        want = [items[0]]
        for _ in range(3):
            vec = ('bin', '@', ('sym', 'E'), vec)
            want.append(('f', 'vec2Mat', vec))
        if [norm(x) for x in items] != [norm(x) for x in want]:
            bad += 1
            rep.bad('evolveOpen', where(f), f'three steps give {[show(x) for x in items][:4]}')
    for d in seen[:1]:
        if d.get('Hamiltonian') != h or d.get('collapseOperators') != ops or d.get('decayRates') != rates or \
                d.get('timeStep') != C(1):
            rep.bad('evolveOpen:args', where(f), 'the exponential is built from other inputs than the given ones')
    if n and not bad:
        rep.ok('evolveOpen', f'{n} paths, three steps')
    elif not n:
        rep.undecided('evolveOpen', 'the list of results is not followed')


def open_gates(prog, rep):
    """a gate in an open system is the super-operator of U rho U-adjoint of the unitary it is otherwise"""
    G = prog.cls('Gate')
    for cls in prog.classes.values():
        if not prog.is_sub(cls, G) or cls is G:
            continue
        r = prog.lookup(cls, '_createUnitary')
        if r is None:
            continue
        ent = r[1]
        for n in (1, 2):
            for impl in (NONE, C('instant'), C('flip')):
                for flag in ('list', 'prop'):
                    nm = f'{cls.name}:{show(impl)}:{n}:{flag}'
                    with rep.guard(nm):
                        gate_case(prog, rep, cls, ent, n, impl, flag, nm)


def gate_case(prog, rep, cls, ent, n, impl, flag, nm):
    res = {}
    func = None
    for mode in ('closed', 'open'):
        S = Scene(prog)
        g = S.obj('gate', cls)
        ss = [S.obj(f's{i}') for i in range(n)]
        S.members(g, 'subSys', ss)
        S.put(g, '_paramBoundBase__matrix', NONE)
        try:
            S.putp(g, 'implementation', impl)
        except Unsupported:
            pass
        for ax in ('rotationAxis',):
            if prog.lookup(cls, ax):
                S.putp(g, ax, C('x'))
        S.put(g, '_rotationOp', ('ext', 'user.J'))
        I = S.I

        def hook(I2, fn, args, kwargs, st, line, mode=mode):
            if isinstance(fn, Func) and fn.module.name.endswith('QuantumToolbox.evolution') and fn.name == 'Unitary' or \
                    isinstance(fn, Func) and fn.module.name.endswith('spinRotations'):
                s = st.copy()
                return [(s, ('um', fn.name, tuple(I2.freeze(s, a) for a in args)))]
            if isinstance(fn, Func) and fn.name == 'compositeOp':
                s = st.copy()
                return [(s, ('um', 'comp', tuple(I2.freeze(s, a) for a in args)))]
            if isinstance(fn, Func) and fn.name == '_isOpen':
                return [(st, TRUE if mode == 'open' and flag == 'prop' else FALSE)]
            return None
        I.call_hook = hook

        def ext(I2, q, args, kwargs, st, line):
            if q in ('scipy.sparse.issparse', 'scipy.sparse.isspmatrix'):
                return [(st, ('sym', 'SPARSE'))]
            if q == 'user.J':
                s = st.copy()
                return [(s, ('um', 'J', tuple(I2.freeze(s, a) for a in args)))]
            return None
        I.ext_hook = ext
        I.kinds[('sym', 'SPARSE')] = frozenset('TF')
        st = S.st
        ops = I.new_list(st, ('L', ('sym', 'c0'))) if mode == 'open' and flag == 'list' else NONE
        outs = S.call(g, '_createUnitary', (ops, NONE)) if ent[0] != 'modvar' or True else []
        A = Algebra(leaf=lambda t: t if t[0] == 'um' else None)
        vals = set()
        for s, v in outs:
            if isinstance(v, Raise) or not A.plausible(s):
                continue
            vals.add(mkey(A.mat(I.freeze(s, v))))
        res[mode] = (vals, A)
    if len(res['closed'][0]) != 1 or len(res['open'][0]) != 1:
        if not res['closed'][0] and not res['open'][0]:
            return
        rep.undecided(nm, f'{len(res["closed"][0])}/{len(res["open"][0])} values')
        return
    A = res['open'][1]
    from ..algebra import unkey
    u = {w: unkey(p) for w, p in res['closed'][0].pop()}
    got = res['open'][0].pop()
    want = A.kron(A.transpose(A.adjoint(u)), u)
    f = prog.lookup(cls, '_createUnitary')
    w = (cls.module.path if hasattr(cls.module, 'path') else cls.module.name, cls.node.lineno, cls.name)
    if mkey(want) == got:
        rep.ok(nm, 'conj(U) (x) U')
    else:
        rep.bad(f'gate:{cls.name}:{show(impl)}', w, f'{cls.name} ({show(impl)}) in an open system gives '
                f'{show_mat({k: unkey(p) for k, p in got})[:250]} for the unitary {show_mat(u)[:120]}')


def check(prog, tier):
    rep = Report('C05', prog, tier, RULE,
                 'Every generator, super-operator and propagator function was summarised for symbolic operators and rates and its '
                 'result compared as a normal form; an obligation is one function for one shape of its arguments.',
                 ['collapse operators have the dimension of the Hamiltonian', 'exact arithmetic',
                  'lists of one to three collapse operators stand for any number (the body of the loop is the same)'])
    with rep.guard('superops'):
        superops(prog, rep)
    with rep.guard('generators'):
        generators(prog, rep, tier)
    with rep.guard('vectorise'):
        vectorise(prog, rep)
    with rep.guard('evolveOpen'):
        open_evolution(prog, rep)
    with rep.guard('gates'):
        open_gates(prog, rep)
    return rep.finish(minimum=1)

"""C06: propagators, rotations and gates against their defining exponentials."""
from .common import *
from .c05 import same, T
from ..scen import Scene
from ..algebra import (Algebra, Unknown, madd, mscale, mmulmat, pconst, padd, pmul, pneg, mkey, show_mat, radsimp, ppow)

RULE = ('algebraic normal form of every propagator, rotation and gate compared with its defining exponential or matrix; explicit '
        'matrices multiplied by their adjoint symbolically')
OPS = {'sigmax', 'sigmay', 'sigmaz', 'Jx', 'Jy', 'Jz', 'create', 'destroy', 'number', 'sigmap', 'sigmam', 'Jp', 'Jm', 'Js'}
HERM = {'sigmax', 'sigmay', 'sigmaz', 'Jx', 'Jy', 'Jz', 'number', 'Js'}


def op(name, *args):
    return ('op', name, tuple(args))


class OpAlgebra(Algebra):
    def normw(self, w):
        out = []
        for f in w:
            if f[0] == 'M' and f[2] == 'h' and f[1][0] == 'op':
                n = f[1][1]
                if n in HERM:
                    f = ('M', f[1], '')
                elif n in ('create', 'destroy'):
                    f = ('M', ('op', {'create': 'destroy', 'destroy': 'create'}[n], f[1][2]), '')
            out.append(f)
        return super().normw(tuple(out))


def leaf(t):
    return t if t[0] in ('op', 'um') else None


def interp(prog, keep=(), drop=()):
    I = Interp(prog, path_limit=3000)

    def ext(I2, q, args, kwargs, st, line):
        if q in ('scipy.sparse.issparse', 'scipy.sparse.isspmatrix', 'scipy.sparse._base.isspmatrix'):
            return [(st, ('sym', 'SPARSE'))]
        return None

    def hook(I2, fn, args, kwargs, st, line):
        if isinstance(fn, Func) and fn.name in OPS and fn.module.name.endswith('operators') and fn.name not in drop:
            s = st.copy()
            names = params_of(fn)
            d = dict(zip(names, args))
            d.update(kwargs)
            # the operator is determined by its dimension or spin; the format does not matter here
            key = []
            for n in names:
                if n in ('sparse',):
                    continue
                if n in d:
                    v = I2.freeze(s, d[n])
                    if n == 'isDim' and v == FALSE:
                        continue
                    key.append((n, v))
            return [(s, ('op', fn.name, tuple(key)))]
        if isinstance(fn, Func) and fn.name in keep:
            s = st.copy()
            return [(s, ('um', fn.name, tuple(I2.freeze(s, a) for a in args), tuple((k, I2.freeze(s, a)) for k, a in kwargs)))]
        return None
    I.call_hook = hook
    I.ext_hook = ext
    I.kinds[('sym', 'SPARSE')] = frozenset('TF')
    return I


def compare(rep, name, func, outs, I, want, A, key=''):
    n = 0
    unk = None
    for s, v in outs:
        if isinstance(v, Raise) or not A.plausible(s):
            continue
        v = I.freeze(s, v)
        try:
            got = A.mat(v)
        except Unknown as e:
            unk = e
            continue
        n += 1
        w = want(s) if callable(want) else want
        if not same(got, w):
            # operators are equal up to unknown atoms only if both sides use the same operators
            rep.bad(f'form:{short(func.key)}:{key}', where(func),
                    f'{name}: gives {show_mat(got)[:260]} instead of {show_mat(w)[:260]}')
            return
    if unk is not None:
        rep.undecided(name, unk)
    elif n:
        rep.ok(name, f'{n} paths')
    else:
        rep.undecided(name, 'no path returns')
    rep.count('paths', n)


def toolbox(prog, rep):
    h, t = ('sym', 'H'), ('sym', 't')
    ang = ('sym', 'angle')
    with rep.guard('Unitary'):
        f = prog.fn(T + 'evolution.Unitary')
        I = interp(prog)
        I.kinds[h] = frozenset('o')
        A = OpAlgebra(mats=[h], leaf=leaf)
        compare(rep, 'Unitary(H, t)', f, I.run(f, [h, t]), I, A.expm(mscale(A.sc(t), mscale(pconst(-1j), A.mat(h)))), A)
        I = interp(prog)
        I.kinds[h] = frozenset('o')
        compare(rep, 'Unitary(H)', f, I.run(f, [h]), I, A.expm(mscale(pconst(-1j), A.mat(h))), A, 'default')
    A = OpAlgebra(leaf=leaf)
    half = ('bin', '/', ang, C(2))
    cos, sin = ('call', ('ext', 'numpy.cos'), (half,), ()), ('call', ('ext', 'numpy.sin'), (half,), ())

    def qrot(ax):
        return madd(mscale(A.sc(cos), {(): pconst(1)}),
                    mscale(pmul(pconst(-1j), A.sc(sin)), A.mat(op('sigma' + ax))))
    for ax in 'xyz':
        with rep.guard(ax + 'Rotation'):
            f = prog.fn(T + f'spinRotations.{ax}Rotation')
            for sp in (TRUE, FALSE):
                I = interp(prog)
                compare(rep, f'{ax}Rotation:{sp[2]}', f, I.run(f, [ang, sp]), I, qrot(ax), A, ax)
        for case in (ax, ax.upper()):
            with rep.guard('qubRotation:' + case):
                f = prog.fn(T + 'spinRotations.qubRotation')
                I = interp(prog)
                compare(rep, f'qubRotation({case!r})', f, I.run(f, [C(case), ang]), I, qrot(ax), A, ax)
            with rep.guard('spinRotation:' + case):
                f = prog.fn(T + 'spinRotations.spinRotation')
                for isdim in (FALSE, TRUE):
                    I = interp(prog)
                    j = ('sym', 'j')
                    o = ('op', 'J' + ax, (('j', j),) + ((('isDim', TRUE),) if isdim == TRUE else ()))
                    want = A.expm(mscale(pmul(pconst(-1j), A.sc(ang)), A.mat(o)))
                    compare(rep, f'spinRotation({case!r}):{isdim[2]}', f, I.run(f, [C(case), ang, j], (('isDim', isdim),)), I, want,
                            A, ax)


def generator_of(m):
    """the exponent of a matrix that is one exponential"""
    from ..algebra import unkey
    if len(m) == 1:
        (w, p), = m.items()
        if len(w) == 1 and w[0][0] == 'expm' and p == pconst(1):
            return {x: unkey(q) for x, q in w[0][1]}
    return None


def cavity(prog, rep):
    al, d = ('sym', 'alpha'), ('sym', 'dim')
    A = OpAlgebra(leaf=leaf)
    a, ad = op('destroy', ('dimension', d)), op('create', ('dimension', d))
    ma, mad = A.mat(a), A.mat(ad)
    pal = A.sc(al)
    specs = {'displacement': madd(mscale(pal, mad), mscale(pneg(A.pconj(pal)), ma)),
             'squeeze': madd(mscale(pmul(pconst(-0.5), pal), mmulmat(mad, mad)),
                             mscale(pmul(pconst(0.5), A.pconj(pal)), mmulmat(ma, ma)))}
    for nm, gen in specs.items():
        with rep.guard(nm):
            f = prog.fn(T + 'operators.' + nm)
            I = interp(prog)
            n = 0
            for s, v in I.run(f, [al, d]):
                if isinstance(v, Raise) or not A.plausible(s):
                    continue
                m = A.mat(I.freeze(s, v))
                g = generator_of(m)
                if g is None:
                    rep.undecided(nm, show_mat(m)[:100])
                    continue
                n += 1
                if not same(madd(g, A.adjoint(g)), {}):
                    rep.bad(f'antihermitian:{nm}', where(f), f'the exponent {show_mat(g)[:200]} is not anti-Hermitian')
                elif not same(g, gen):
                    rep.bad(f'form:{nm}', where(f), f'the exponent is {show_mat(g)[:200]} instead of {show_mat(gen)[:200]}')
                else:
                    rep.ok(nm, show_mat(g))
            rep.count('paths', n)
    with rep.guard('parityEXP'):
        f = prog.fn(T + 'operators.parityEXP')
        h = ('sym', 'H')
        A = OpAlgebra(mats=[h], leaf=leaf)
        I = interp(prog)
        I.kinds[h] = frozenset('o')
        want = A.expm(mscale(pmul(pconst(1j), A.sc(('ext', 'numpy.pi'))), A.mat(h)))
        want2 = A.expm(mscale(pmul(pconst(-1j), A.sc(('ext', 'numpy.pi'))), A.mat(h)))
        outs = [(s, v) for s, v in I.run(f, [h]) if not isinstance(v, Raise)]
        if outs and all(same(A.mat(I.freeze(s, v)), want2) for s, v in outs):
            rep.ok('parityEXP', 'exp(-i pi H)')
        else:
            compare(rep, 'parityEXP', f, outs, I, want, A)


# ------------------------------------------------------------------------------------ explicit matrices
def explicit(I, st, t):
    """{(row, col): polynomial}, shape of a matrix given by constant positions"""
    A = Algebra()
    while t[0] == 'mcall' and t[2] in ('toarray', 'todense', 'tocsc', 'copy') or t[0] == 'attr' and t[2] == 'A':
        t = t[1]
    if t[0] == 'bin' and t[1] == '*':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            try:
                e, sh = explicit(I, st, a)
            except Unknown:
                continue
            k = A.sc(b)
            return {x: radsimp(pmul(k, p)) for x, p in e.items()}, sh
    if t[0] == 'bin' and t[1] == '/':
        e, sh = explicit(I, st, t[2])
        k = ppow(A.sc(t[3]), -1)
        return {x: radsimp(pmul(k, p)) for x, p in e.items()}, sh
    if t[0] != 'call' or t[1][0] != 'ext':
        raise Unknown('matrix ' + show(t)[:80])
    q, a = t[1][1], t[2]

    def ints(x):
        r = I.known_items(x, st)
        if r is None or not all(y[0] == 'c' for y in r):
            raise Unknown('positions ' + show(x)[:60])
        return [y[2] for y in r]
    if q.startswith('scipy.sparse.') and q.split('.')[-1] in ('csc_matrix', 'csr_matrix', 'coo_matrix'):
        arg = a[0]
        if arg[0] == 'tup' and len(arg) == 3:
            data, pos = arg[1], arg[2]
            pi = I.known_items(pos, st)
            vals = I.known_items(data, st)
            if pi is None or len(pi) != 2 or vals is None:
                raise Unknown('data ' + show(arg)[:80])
            rows, cols = ints(pi[0]), ints(pi[1])
            out = {}
            if not len(rows) == len(cols) == len(vals):
                raise Unknown('lengths differ')
            for r, c, v in zip(rows, cols, vals):
                out[(r, c)] = padd(out.get((r, c), {}), A.sc(v))
            return {k: p for k, p in out.items() if p}, (dict(t[3]).get('shape'))
        return explicit(I, st, arg)
    if q in ('numpy.array', 'numpy.asarray', 'numpy.matrix'):
        rows = I.known_items(a[0], st)
        out = {}
        if rows is None:
            raise Unknown('rows')
        for r, x in enumerate(rows):
            xs = I.known_items(x, st)
            if xs is None:
                raise Unknown('row')
            for c, y in enumerate(xs):
                p = A.sc(y)
                if p:
                    out[(r, c)] = p
        return out, None
    if q in ('numpy.diag', 'scipy.sparse.diags') and len(a) == 1:
        xs = I.known_items(a[0], st)
        if xs is not None:
            return {(i, i): A.sc(y) for i, y in enumerate(xs) if A.sc(y)}, None
    raise Unknown('matrix ' + show(t)[:80])


def expjoin(p):
    """combine products of exponentials"""
    from ..algebra import unkey, pkey
    from fractions import Fraction
    out = {}
    for m, c in p.items():
        ex = {}
        rest = []
        for x, e in m:
            if isinstance(x, tuple) and x[0] == 'fn' and x[1] == 'exp' and e.denominator == 1:
                ex = padd(ex, pmul(pconst(int(e)), unkey(x[2])))
            else:
                rest.append((x, e))
        if ex:
            rest.append((('fn', 'exp', pkey(ex)), Fraction(1)))
        out = padd(out, {tuple(sorted(rest, key=repr)): c})
    return out


def constants(prog, rep):
    ph = ('sym', 'phase')
    A = Algebra(real=[ph])
    s2 = ppow(pconst(2), -0.5)
    ex = A.sc(('call', ('ext', 'numpy.exp'), (('bin', '*', C(1j), ph),), ()))
    one = pconst(1)
    specs = {'CNOT': ([], {(0, 0): one, (1, 1): one, (2, 3): one, (3, 2): one}),
             'CPHASE': ([ph], {(0, 0): one, (1, 1): one, (2, 2): one, (3, 3): ex}),
             'Hadamard': ([], {(0, 0): s2, (0, 1): s2, (1, 0): s2, (1, 1): pneg(s2)})}
    for nm, (args, want) in specs.items():
        with rep.guard(nm):
            f = prog.fn(T + 'basicGates.' + nm)
            for sp in (TRUE, FALSE):
                I = interp(prog)
                n = 0
                for s, v in I.run(f, args, (('sparse', sp),)):
                    if isinstance(v, Raise):
                        continue
                    u, _ = explicit(I, s, I.freeze(s, v))
                    n += 1
                    dim = 2 if nm == 'Hadamard' else 4
                    prod = {}
                    for (i, k), p in u.items():
                        for (j, k2), q in u.items():
                            if k == k2:
                                prod[(i, j)] = expjoin(radsimp(padd(prod.get((i, j), {}), pmul(p, A.pconj(q)))))
                    prod = {k: p for k, p in prod.items() if p}
                    if prod != {(i, i): one for i in range(dim)}:
                        rep.bad(f'unitary:{nm}', where(f), f'{nm} times its adjoint is not the identity')
                    elif {k: radsimp(p) for k, p in u.items()} != {k: radsimp(p) for k, p in want.items()}:
                        rep.bad(f'matrix:{nm}', where(f), f'{nm} has elements {sorted(u)} that differ from its definition')
                    else:
                        rep.ok(f'{nm}:{sp[2]}', 'unitary')
                if not n:
                    rep.undecided(nm, 'no path')


# ------------------------------------------------------------------------------------ classes
def gates(prog, rep):
    G = prog.cls('SpinRotation')
    for cls in prog.classes.values():
        if not prog.is_sub(cls, G) or prog.lookup(cls, '_createUnitary') is None:
            continue
        for axis in ('x', 'y', 'z', 'X', 'Z'):
            for impl in (NONE, C('instant'), C('Flip')):
                for n in (1, 2, 3):
                    nm = f'{cls.name}:{axis}:{show(impl)}:{n}'
                    with rep.guard(nm):
                        gate(prog, rep, cls, axis, impl, n, nm)


def gate(prog, rep, cls, axis, impl, n, nm):
    S = Scene(prog)
    I = interp(prog, keep=('compositeOp',))
    I.kinds.update(S.I.kinds)
    S.I = I
    g = S.obj('gate', cls)
    ss = [S.obj(f's{i}') for i in range(n)]
    S.members(g, 'subSys', ss)
    S.put(g, '_paramBoundBase__matrix', NONE)
    try:
        S.putp(g, 'implementation', impl)
    except Unsupported:
        pass
    angle, phase = S.loc(g, 'angle'), S.loc(g, 'phase')
    S.putp(g, 'rotationAxis', NONE)
    outer = I.call_hook

    def hook(I2, fn, args, kwargs, st, line):
        if isinstance(fn, Func) and fn.name == '_isOpen':
            return [(st, FALSE)]
        if isinstance(fn, Func) and fn.name == 'compositeOp':
            s = st.copy()
            names = params_of(fn)
            d = dict(zip(names, (I2.freeze(s, a) for a in args)))
            d.update({k: I2.freeze(s, a) for k, a in kwargs})
            return [(s, ('comp', d.get(names[0]), d.get(names[1], C(1)), d.get(names[2], C(1))))]
        return outer(I2, fn, args, kwargs, st, line)
    I.call_hook = hook
    # expansion of a composite operator is linear: comp(c A) = c comp(A)
    A = None

    def lf(t):
        if t[0] in ('op', 'um'):
            return t
        if t[0] == 'comp':
            inner = A.mat(t[1])
            r = {}
            for w, p in inner.items():
                r = madd(r, mscale(p, {(('M', ('comp', w, t[2], t[3]), ''),): pconst(1)} if w else {(): pconst(1)}))
            return r
        return None
    A = OpAlgebra(leaf=lf)
    outs = []
    for s, v in S.set(g, 'rotationAxis', C(axis)):
        if not isinstance(v, Raise):
            outs += S.call(g, '_createUnitary', (NONE, NONE), st=s)
    ax = axis.lower()

    def factor(i, instant):
        bef, aft = ('attr', ss[i], '_dimsBefore'), ('attr', ss[i], '_dimsAfter')
        if instant:
            half = ('bin', '/', angle, C(2))
            cos, sin = ('call', ('ext', 'numpy.cos'), (half,), ()), ('call', ('ext', 'numpy.sin'), (half,), ())
            sig = {(('M', ('comp', (('M', op('sigma' + ax), ''),), bef, aft), ''),): pconst(1)}
            return madd(mscale(A.sc(cos), {(): pconst(1)}), mscale(pmul(pconst(-1j), A.sc(sin)), sig))
        o = ('op', 'J' + ax, (('j', ('attr', ss[i], 'dimension')), ('isDim', TRUE)))
        m = {(('M', ('comp', (('M', o, ''),), bef, aft), ''),): pconst(1)}
        return A.expm(mscale(pmul(pconst(-1j), pmul(A.sc(angle), A.sc(phase))), m))
    import itertools
    inst = impl != NONE and cls.name != 'SpinRotation'
    # factors of different systems commute, so any order of them is the same gate
    perms = []
    for perm in itertools.permutations(range(n)):
        w = {(): pconst(1)}
        for i in perm:
            w = mmulmat(w, factor(i, inst))
        perms.append(w)
    ok = 0
    unk = None
    f = prog.lookup(cls, '_createUnitary')
    loc = (cls.module.path if hasattr(cls.module, 'path') else cls.module.name, cls.node.lineno, cls.name)
    for s, v in outs:
        if isinstance(v, Raise) or not A.plausible(s):
            continue
        try:
            got = A.mat(I.freeze(s, v))
        except Unknown as e:
            unk = e
            continue
        ok += 1
        if not any(same(got, w) for w in perms):
            rep.bad(f'gate:{cls.name}:{show(impl)}:{ax}', loc,
                    f'{cls.name} about {axis} ({show(impl)}) on {n} systems gives {show_mat(got)[:260]} instead of '
                    f'{show_mat(perms[0])[:260]}')
            return
    if unk is not None:
        rep.undecided(nm, unk)
    elif ok:
        rep.ok(nm, f'{ok} paths')
    rep.count('paths', ok)


def free(prog, rep):
    F = prog.cls('freeEvolution')
    with rep.guard('freeEvolution'):
        S = Scene(prog)
        I = interp(prog)
        I.kinds.update(S.I.kinds)
        S.I = I
        p = S.obj('step', F)
        sysm = S.obj('system')
        S.put(p, '_qBase__superSys', sysm)
        sim = S.obj('sim')
        outer = I.call_hook

        def hook(I2, fn, args, kwargs, st, line):
            if isinstance(fn, Func) and fn.name == 'simulation' and fn.cls is not None:
                return [(st, sim)]
            return outer(I2, fn, args, kwargs, st, line)
        I.call_hook = hook
        mats = [('attr', sysm, 'totalHam'), ('attr', sysm, 'totalHamiltonian'), ('mcall', sysm, 'totalHam', (), ())]
        A = OpAlgebra(mats=mats, leaf=leaf)
        step = S.get(p, 'ratio')[0][1]
        n = 0
        f = prog.lookup(F, '_createUnitary')
        loc = (F.module.path if hasattr(F.module, 'path') else F.module.name, F.node.lineno, F.name)
        co = S.get(p, '_freqCoef')
        for s, v in S.call(p, '_createUnitary', (NONE, NONE)):
            if isinstance(v, Raise) or not A.plausible(s):
                continue
            got = A.mat(I.freeze(s, v))
            tm = pmul(A.sc(('attr', sim, 'stepSize')), pmul(A.sc(step), ppow(A.sc(('attr', sim, 'samples')), -1)))
            fc = A.sc(co[0][1])
            wants = [A.expm(mscale(pmul(fc, pmul(pconst(-1j), tm)), A.mat(m))) for m in mats]
            n += 1
            if not any(same(got, w) for w in wants):
                rep.bad('form:freeEvolution', loc, f'free evolution gives {show_mat(got)[:260]} instead of {show_mat(wants[1])[:260]}')
                return
        if n:
            rep.ok('freeEvolution', f'{n} paths')
        else:
            rep.undecided('freeEvolution', 'no path')


def check(prog, tier):
    rep = Report('C06', prog, tier, RULE,
                 'Every propagator, rotation, cavity operator and gate was summarised for symbolic arguments and its normal form '
                 'compared with the definition; an obligation is one function for one axis, format or number of systems.',
                 ['scipy expm computes the matrix exponential', 'rounding to 12 or more digits is the identity',
                  'operators of different sub-systems commute', 'the elements of the spin and Pauli operators are those of C03'])
    with rep.guard('toolbox'):
        toolbox(prog, rep)
    with rep.guard('cavity'):
        cavity(prog, rep)
    with rep.guard('constants'):
        constants(prog, rep)
    with rep.guard('gates'):
        gates(prog, rep)
    free(prog, rep)
    return rep.finish(minimum=1)

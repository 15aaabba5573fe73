"""C24: states are normalised and weight the right basis elements."""
from fractions import Fraction
from .common import *
from ..scen import Scene
from ..algebra import (Algebra, Unknown, madd, mscale, mmulmat, pconst, padd, pmul, pneg, mkey, show_mat, radsimp, ppow, unkey,
                       pkey)
from ..banded import canon, peq, var
from .c06 import explicit

RULE = ('normal form of every state constructor over orthonormal basis vectors, with norms and traces expanded symbolically, against '
        'the defining weights')
S = 'QuantumToolbox.states.'


def basis(dim, k):
    return ('op', 'basis', (dim, k))


class StateAlgebra(Algebra):
    """kets are words ('M', atom, ''); norms and traces are evaluated on words"""

    def mat(self, t):
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('builtins.sum', 'numpy.sum') and len(t[2]) == 1 and \
                t[2][0][0] in ('L', 'tup'):
            r = {}
            for x in t[2][0][1:]:
                r = madd(r, self.mat(x))
            return r
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix', 'numpy.array',
                                                               'numpy.asarray') and t[2] and self.is_mat(t[2][0]):
            return self.mat(t[2][0])
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] == 'numpy.outer' and len(t[2]) == 2:
            return mmulmat(self.mat(t[2][0]), self.transpose(self.mat(t[2][1])))
        return super().mat(t)

    def is_mat(self, t):
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('builtins.sum', 'numpy.sum') and len(t[2]) == 1 and \
                t[2][0][0] in ('L', 'tup'):
            return any(self.is_mat(x) for x in t[2][0][1:])
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] == 'numpy.outer':
            return True
        return super().is_mat(t)

    def trace(self, m):
        out = {}
        for w, p in m.items():
            if len(w) == 2 and w[0][0] == 'M' and w[1][0] == 'M':
                a, b = w
                if {a[2], b[2]} <= {'', 'h', 'T', 'c'}:
                    # cyclic: bra first
                    if a[2] in ('', 'c') and b[2] in ('h', 'T'):
                        a, b = b, a
                    if a[1][0] == 'op' and b[1][0] == 'op' and a[1][1] == b[1][1] == 'basis':
                        # real unit vectors: the inner product does not depend on conjugation
                        if a[1][2] == b[1][2]:
                            out = padd(out, p)
                            continue
                        if a[1][2][0] == b[1][2][0]:
                            continue        # different elements of one basis
                    w = (a, b)
            rots = [w[i:] + w[:i] for i in range(len(w))]
            out = padd(out, pmul(p, var(('tr', min(rots, key=repr) if rots else ()))))
        return out

    def sc(self, t):
        if t[0] == 'mcall' and t[2] == 'sum' and t[1][0] == 'mcall' and t[1][2] == 'diagonal' and self.is_mat(t[1][1]):
            return self.trace(self.mat(t[1][1]))
        if t[0] == 'mcall' and t[2] == 'trace' and self.is_mat(t[1]):
            return self.trace(self.mat(t[1]))
        if t[0] == 'call' and t[1][0] == 'ext' and len(t[2]) == 1:
            q, a = t[1][1], t[2][0]
            if q == 'numpy.trace' and self.is_mat(a):
                return self.trace(self.mat(a))
            if q == 'numpy.sum' and a[0] == 'mcall' and a[2] == 'diagonal':
                return self.trace(self.mat(a[1]))
            if q in ('numpy.linalg.norm', 'scipy.sparse.linalg.norm', 'scipy.linalg.norm') and self.is_mat(a):
                m = self.mat(a)
                return radsimp(ppow(self.trace(mmulmat(self.adjoint(m), m)), Fraction(1, 2)))
            if q in ('builtins.sum', 'numpy.sum') and a[0] in ('L', 'tup'):
                r = {}
                for x in a[1:]:
                    r = padd(r, self.sc(x))
                return r
            if q in ('numpy.real', 'builtins.float'):
                return self.sc(a)
            if q in ('builtins.len',) and a[0] in ('L', 'tup'):
                return pconst(len(a) - 1)
        if t[0] == 'len' and t[1][0] in ('L', 'tup', 'D'):
            return pconst(len(t[1]) - 1)
        return super().sc(t)

    def isreal(self, atom):
        if isinstance(atom, tuple) and atom and atom[0] == 'tr':
            w = atom[1]
            return True if len(w) == 2 and w[0][1] == w[1][1] else False
        return super().isreal(atom)


def vec_leaf(extra=()):
    def leaf(t):
        if t in extra:
            return t
        if t[0] == 'op':
            return t
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in ('csc_matrix', 'csr_matrix', 'coo_matrix') and \
                t[1][1].startswith('scipy.sparse') and t[2] and t[2][0][0] == 'tup' and len(t[2][0]) == 3:
            data, pos = t[2][0][1:]
            shape = dict(t[3]).get('shape', t[2][1] if len(t[2]) > 1 else None)
            if data[0] in ('L', 'tup') and len(data) == 2 and data[1][0] == 'c' and data[1][2] == 1 and pos[0] in ('tup', 'L') \
                    and len(pos) == 3 and shape is not None and shape[0] in ('tup', 'L') and len(shape) == 3:
                r, c = pos[1], pos[2]
                if r[0] in ('L', 'tup') and c[0] in ('L', 'tup') and len(r) == 2 and len(c) == 2:
                    z = C(0)
                    if c[1] == z and shape[2] == C(1):
                        return basis(shape[1], r[1])
                    if r[1] == z and shape[1] == C(1):
                        return Algebra().transpose(Algebra().atom(basis(shape[2], c[1])))
        return None
    return leaf


def square(st):
    """{True, False}: what the path assumes about matrices being square"""
    out = set()
    for k, v in st.facts.items():
        if k[0] == 'eq' and len(k) == 3 and all(
                x[0] in ('idx', 'sub') and x[1][0] == 'attr' and x[1][2] == 'shape' for x in k[1:]):
            if v in (True, False) and k[1][1] == k[2][1]:
                out.add(v)
    return out


def assumes_list(A, st):
    """the path takes a matrix for a list"""
    return any(k[0] == 'I+' and ('ext', 'builtins.list') in v and A.is_mat(k[1]) for k, v in st.facts.items() if len(k) == 2)


def order(I, q, args, kwargs, st, line):
    """sorting keys of unknown order: they may as well be in descending order"""
    if q == 'builtins.sorted' and args:
        items = I.known_items(args[0], st)
        if items is not None and len(items) > 1:
            s = st.copy()
            return [(s, I.new_list(s, ('L',) + tuple(reversed(items))))]
    return None


def compare(rep, label, key, func, outs, I, A, want, sq=None, scalar=False):
    n = 0
    for st, v in outs:
        if isinstance(v, Raise) or (sq is not None and (not sq) in square(st)):
            continue
        v = I.freeze(st, v)
        got = A.sc(v) if scalar else A.mat(v)
        w = want
        n += 1
        if scalar:
            good = peq(got, w)
        else:
            good = set(got) == set(w) and all(peq(got[k], w[k]) for k in w)
        if not good:
            rep.bad(key, where(func), f'{label}: gives {show_mat(got) if not scalar else show_mat({(): got})} instead of '
                    f'{show_mat(w) if not scalar else show_mat({(): w})}'[:600])
            return
    if n:
        rep.count('paths', n)
        rep.ok(label, f'{n} paths')
    else:
        rep.undecided(label, 'no path returns')


def conj(A, m):
    return A.adjoint(m)


def linear_algebra(prog, rep):
    L = 'QuantumToolbox.linearAlgebra.'
    x, y, r = ('sym', 'ket1'), ('sym', 'ket2'), ('sym', 'rho')
    A = StateAlgebra(kets=[x, y], mats=[r], leaf=vec_leaf())
    X, Y, R = A.atom(x), A.atom(y), A.atom(r)

    def one(name, args, want, scalar, label):
        with rep.guard(label):
            f = prog.fn(L + name)
            I = Interp(prog)
            for z in [a for a in args if a != NONE]:
                I.kinds[z] = frozenset('o')
            compare(rep, label, f'form:{name}', f, I.run(f, args), I, A, want, scalar=scalar)
    one('hc', [x], A.adjoint(X), False, 'hc')
    one('innerProd', [x, y], A.trace(mmulmat(A.adjoint(Y), X)), True, 'innerProd(ket1, ket2)')
    one('innerProd', [x, NONE], A.trace(mmulmat(A.adjoint(X), X)), True, 'innerProd(ket)')
    one('norm', [x], ppow(A.trace(mmulmat(A.adjoint(X), X)), Fraction(1, 2)), True, 'norm')
    one('outerProd', [x, y], mmulmat(X, A.adjoint(Y)), False, 'outerProd(ket1, ket2)')
    one('outerProd', [x, NONE], mmulmat(X, A.adjoint(X)), False, 'outerProd(ket)')
    one('trace', [r], A.trace(R), True, 'trace')


def constructors(prog, rep):
    d, k = ('sym', 'dimension'), ('sym', 'state')
    A = StateAlgebra(leaf=vec_leaf())
    for nm, sp in (('sparse', TRUE), ('dense', FALSE)):
        with rep.guard('basis:' + nm):
            f = prog.fn(S + 'basis')
            I = Interp(prog)
            compare(rep, 'basis:' + nm, 'form:basis', f, I.run(f, [d, k, sp]), I, A, A.atom(basis(d, k)))
        with rep.guard('basisBra:' + nm):
            f = prog.fn(S + 'basisBra')
            I = Interp(prog)
            b = A.atom(basis(d, k))
            for o in I.run(f, [d, k, sp]):
                got = A.mat(I.freeze(*o))
                # a real vector: transposed and adjoint agree
                if got not in (A.transpose(b), A.adjoint(b)):
                    rep.bad('form:basisBra', where(f), f'basisBra gives {show_mat(got)}')
                    break
            else:
                rep.ok('basisBra:' + nm)
        with rep.guard('completeBasis:' + nm):
            f = prog.fn(S + 'completeBasis')
            I = Interp(prog)
            for st, v in I.run(f, [d, sp]):
                v = I.freeze(st, v)
                bodies, it = (v[1], v[2]) if v[0] == 'map' else (None, None)
                if bodies is None or it[0] != 'range':
                    raise Unknown('not a list over the dimension: ' + show(v)[:80])
                if it != ('range', d) and it != ('range', C(0), d):
                    rep.bad('form:completeBasis', where(f), f'one state for every element of {show(it)} instead of range(dimension)')
                    break
                got = [A.mat(b) for fs, b in bodies]
                if any(g != A.atom(basis(d, ('elem', it))) for g in got):
                    rep.bad('form:completeBasis', where(f), f'element i is {show_mat(got[0])} instead of basis state i')
                    break
            else:
                rep.ok('completeBasis:' + nm)
    for n in (1, 2, 3):
        ks = [('sym', f'k{i}') for i in range(n)]
        vs = [('sym', f'v{i}') for i in range(n)]
        bs = [A.atom(basis(d, x)) for x in ks]
        for pop in (TRUE, FALSE):
            label = f'superPos: dict of {n} {"populations" if pop == TRUE else "coefficients"}'
            with rep.guard(label):
                f = prog.fn(S + 'superPos')
                Sc = Scene(prog)
                Sc.I.ext_hook = order
                e = Sc.dct(tuple(zip(ks, vs)))
                for x in ks:
                    Sc.I.kinds[x] = frozenset('zo')
                A2 = StateAlgebra(leaf=vec_leaf(), real=vs if pop == TRUE else ())
                tot, want = {}, {}
                for v in vs:
                    p = var(v)
                    tot = padd(tot, p if pop == TRUE else pmul(p, A2.pconj(p)))
                for b, v in zip(bs, vs):
                    c = ppow(var(v), Fraction(1, 2)) if pop == TRUE else var(v)
                    want = madd(want, mscale(pmul(c, ppow(tot, Fraction(-1, 2))), b))
                outs = Sc.I.run(f, [d, e, pop, ('sym', 'sparse')], (), Sc.st)
                compare(rep, label, f'form:superPos:{"populations" if pop == TRUE else "coefficients"}', f, outs, Sc.I, A2, want, False)
        label = f'superPos: list of {n}'
        with rep.guard(label):
            f = prog.fn(S + 'superPos')
            Sc = Scene(prog)
            e = Sc.lst(ks)
            for x in ks:
                Sc.I.kinds[x] = frozenset('zo')
                Sc.st.facts[('I+', x)] = frozenset({('ext', 'builtins.int')})
            w = ppow(pconst(n), Fraction(-1, 2))
            want = {}
            for b in bs:
                want = madd(want, mscale(w, b))
            for pop in (TRUE, FALSE):
                outs = Sc.I.run(f, [d, e, pop, ('sym', 'sparse')], (), Sc.st)
                compare(rep, label + ('' if pop == TRUE else ' (coefficients)'), 'form:superPos:list', f, outs, Sc.I, A, want, False)
    with rep.guard('superPos: integer'):
        f = prog.fn(S + 'superPos')
        Sc = Scene(prog)
        Sc.I.kinds[k] = frozenset('zo')
        Sc.st.facts[('I+', k)] = frozenset({('ext', 'builtins.int')})
        outs = Sc.I.run(f, [d, k, TRUE, ('sym', 'sparse')], (), Sc.st)
        compare(rep, 'superPos: integer', 'form:superPos:int', f, outs, Sc.I, A, A.atom(basis(d, k)), False)


def sums_and_matrices(prog, rep):
    ks = [('sym', f'ket{i}') for i in range(3)]
    ps = [('sym', f'p{i}') for i in range(3)]
    A = StateAlgebra(kets=ks, leaf=vec_leaf(), real=ps)
    for n in (1, 2, 3):
        for weighted in (True, False):
            label = f'weightedSum of {n} {"with" if weighted else "without"} weights'
            with rep.guard(label):
                f = prog.fn(S + 'weightedSum')
                Sc = Scene(prog)
                want = {}
                for x, p in zip(ks[:n], ps):
                    want = madd(want, mscale(var(p), A.atom(x)) if weighted else A.atom(x))
                outs = Sc.I.run(f, [Sc.lst(ks[:n]), Sc.lst(ps[:n]) if weighted else NONE], (), Sc.st)
                compare(rep, label, 'form:weightedSum', f, outs, Sc.I, A, want)
            label = f'densityMatrix of {n} kets {"with" if weighted else "without"} probabilities'
            with rep.guard(label):
                f = prog.fn(S + 'densityMatrix')
                Sc = Scene(prog)
                raw = {}
                for x, p in zip(ks[:n], ps):
                    o = mmulmat(A.atom(x), A.adjoint(A.atom(x)))
                    raw = madd(raw, mscale(var(p), o) if weighted else o)
                want = mscale(ppow(A.trace(raw), -1), raw)
                outs = Sc.I.run(f, [Sc.lst(ks[:n]), Sc.lst(ps[:n]) if weighted else NONE], (), Sc.st)
                compare(rep, label, 'form:densityMatrix:ensemble', f, outs, Sc.I, A, want, True)
    with rep.guard('densityMatrix of a ket'):
        f = prog.fn(S + 'densityMatrix')
        I = Interp(prog)
        x = ks[0]
        I.kinds[x] = frozenset('o')
        st = State()
        st.facts[('I-', x)] = frozenset({('ext', 'builtins.list')})
        compare(rep, 'densityMatrix of a ket', 'form:densityMatrix:ket', f, I.run(f, [x, NONE], (), st), I, A,
                mmulmat(A.atom(x), A.adjoint(A.atom(x))))
    with rep.guard('normalise'):
        f = prog.fn(S + 'normalise')
        x, r = ks[0], ('sym', 'rho')
        A2 = StateAlgebra(kets=[x], mats=[r], leaf=vec_leaf())
        I = Interp(prog)
        X, R = A2.atom(x), A2.atom(r)
        compare(rep, 'normalise: ket', 'form:normalise:ket', f, I.run(f, [x]), I, A2,
                mscale(ppow(A2.trace(mmulmat(A2.adjoint(X), X)), Fraction(-1, 2)), X), False)
        compare(rep, 'normalise: density matrix', 'form:normalise:matrix', f, I.run(f, [r]), I, A2,
                mscale(ppow(A2.trace(R), -1), R), True)
    # complete bases of projectors
    d = ('sym', 'dimension')
    for nm, sp in (('sparse', TRUE), ('dense', FALSE)):
        label = 'completeBasisMat:' + nm
        with rep.guard(label):
            f = prog.fn(S + 'completeBasisMat')
            Sc = Scene(prog)
            Sc.I.kinds[d] = frozenset('zo')
            called = []

            def hook(I2, fn, args, kwargs, st, line):
                if isinstance(fn, Func) and fn.name == 'completeBasis':
                    x = dict(zip(params_of(fn), args))
                    x.update(kwargs)
                    called.append((x.get('dimension'), x.get('sparse', TRUE)))
                    s2 = st.copy()
                    o = I2.new_list(s2, ('L',) + tuple(ks))
                    for y in ks:
                        s2.facts[('I-', y)] = frozenset({('ext', 'builtins.list')})
                    return [(s2, o)]
                return None
            Sc.I.call_hook = hook
            for x in ks:
                Sc.I.kinds[x] = frozenset('o')
            want = [mmulmat(A.atom(x), A.adjoint(A.atom(x))) for x in ks]
            n = 0
            for st, v in Sc.I.run(f, [d, NONE, sp], (), Sc.st):
                if isinstance(v, Raise) or assumes_list(A, st):
                    continue
                items = Sc.I.known_items(v, st)
                if items is None or not called:
                    raise Unknown('result ' + show(v)[:80])
                got = [A.mat(Sc.I.freeze(st, x)) for x in items]
                n += 1
                if got != want or any(c != (d, sp) for c in called):
                    rep.bad('form:completeBasisMat', where(f), f'gives {[show_mat(g) for g in got]} for a basis of three kets, built '
                            f'with {[tuple(map(show, c)) for c in called]}')
                    return
            if n:
                rep.ok(label)
            else:
                rep.undecided(label, 'no path returns')
    label = 'completeBasisMat of given kets'
    with rep.guard(label):
        f = prog.fn(S + 'completeBasisMat')
        Sc = Scene(prog)
        for x in ks:
            Sc.I.kinds[x] = frozenset('o')
            Sc.st.facts[('I-', x)] = frozenset({('ext', 'builtins.list')})
        for st, v in Sc.I.run(f, [NONE, Sc.lst(ks)], (), Sc.st):
            if assumes_list(A, st):
                continue
            items = None if isinstance(v, Raise) else Sc.I.known_items(v, st)
            if items is None:
                raise Unknown('result ' + show(v)[:80])
            got = [A.mat(Sc.I.freeze(st, x)) for x in items]
            want = [mmulmat(A.atom(x), A.adjoint(A.atom(x))) for x in ks]
            if got != want:
                rep.bad('form:completeBasisMat:kets', where(f), f'gives {[show_mat(g) for g in got]} for three kets')
                return
        rep.ok(label)


def composite(prog, rep):
    """tensor products in the order of the sub-systems"""
    T = 'QuantumToolbox.linearAlgebra.tensorProd'
    for n in (1, 2, 3):
        xs = [('sym', f'm{i}') for i in range(n)]
        A = StateAlgebra(mats=xs, leaf=vec_leaf())
        label = f'tensorProd of {n}'
        with rep.guard(label):
            f = prog.fn(T)
            I = Interp(prog)
            I.max_rec = 6
            for x in xs:
                I.kinds[x] = frozenset('o')
                I.types.pop(x, None)
            st = State()
            for x in xs:
                st.facts[('I-', x)] = frozenset({('ext', 'builtins.int')})
            want = A.atom(xs[0])
            for x in xs[1:]:
                want = A.kron(want, A.atom(x))
            compare(rep, label, 'form:tensorProd', f, I.run(f, xs, (), st), I, A, want)
        label = f'compositeState of {n}'
        with rep.guard(label):
            f = prog.fn(S + 'compositeState')
            for sp in (TRUE, FALSE):
                Sc = Scene(prog)
                I = Sc.I
                I.max_rec = 6
                ds = [('sym', f'd{i}') for i in range(n)]
                es = [('sym', f'e{i}') for i in range(n)]

                def hook(I2, fn, args, kwargs, st, line):
                    if isinstance(fn, Func) and fn.name == 'superPos':
                        s = st.copy()
                        a = dict(zip(params_of(fn), args))
                        a.update(kwargs)
                        t = ('op', 'superPos', (a.get('dimension'), a.get('excitations')))
                        pops = a.get('populations', TRUE)
                        if pops != TRUE:
                            t = ('op', 'superPos', (a.get('dimension'), a.get('excitations'), pops))
                        s.facts[('I-', t)] = frozenset({('ext', 'builtins.int')})
                        return [(s, t)]
                    return None
                I.call_hook = hook
                A = StateAlgebra(leaf=vec_leaf())
                want = None
                for dd, e in zip(ds, es):
                    a = A.atom(('op', 'superPos', (dd, e)))
                    want = a if want is None else A.kron(want, a)
                outs = I.run(f, [Sc.lst(ds), Sc.lst(es), sp], (), Sc.st)
                compare(rep, label + (' sparse' if sp == TRUE else ' dense'), 'form:compositeState', f, outs, I, A, want)


def bell(prog, rep):
    f = prog.fn(S + 'BellStates')
    s = ppow(pconst(2), Fraction(-1, 2))
    want = {('Phi+', '00'): {0: s, 3: s}, ('Phi-', '01'): {0: s, 3: pneg(s)}, ('Psi+', '10'): {1: s, 2: s},
            ('Psi-', '11'): {1: s, 2: pneg(s)}}
    for names, w in want.items():
        for nm in names:
            for sp in (TRUE, FALSE):
                label = f'BellStates {nm} {"sparse" if sp == TRUE else "dense"}'
                with rep.guard(label):
                    I = Interp(prog)
                    n = 0
                    for st, v in I.run(f, [C(nm), sp]):
                        if isinstance(v, Raise):
                            rep.bad(f'bell:{nm}', where(f), f'BellStates({nm!r}) raises')
                            return
                        got, _ = explicit(I, st, I.freeze(st, v))
                        col = {r: p for (r, c), p in got.items()}
                        n += 1
                        if any(c != 0 for _, c in got) or set(col) != set(w) or not all(peq(col[r], w[r]) for r in w):
                            rep.bad(f'bell:{nm}', where(f), f'BellStates({nm!r}) has elements {sorted(col)} with '
                                    f'{[show_mat({(): col[r]}) for r in sorted(col)]}')
                            return
                    if n:
                        rep.ok(label)


def systems(prog, rep):
    """initial states of quantum systems"""
    def hook(I2, fn, args, kwargs, st, line):
        if isinstance(fn, Func) and fn.name == 'superPos':
            a = dict(zip(params_of(fn), args))
            a.update(kwargs)
            return [(st.copy(), ('op', 'superPos', tuple(a.get(x) for x in ('dimension', 'excitations', 'populations'))))]
        if isinstance(fn, Func) and fn.name == 'tensorProd':
            return [(st.copy(), ('op', 'tensorProd', tuple(args)))]
        return None
    def notsparse(I2, q, args, kwargs, st, line):
        if q.startswith('scipy.sparse') and q.split('.')[-1] in ('issparse', 'isspmatrix'):
            return [(st, FALSE)]
        return None
    for cname, meth in (('QuantumSystem', '_createInitialState'), ('compQSystem', '_createAstate'), ('qSystem', '_createAstate')):
        cls = prog.cls(cname)
        at = prog.lookup(cls, meth)
        if at is None:
            rep.undecided(f'{cname}.{meth}', 'not found')
            continue
        fn = next((f for f in prog.funcs.values() if f.cls is cls and f.name == meth), None)
        comp = (True, False) if cname == 'QuantumSystem' else ((True,) if cname == 'compQSystem' else (False,))
        for c in comp:
            for n in ((2, 3) if c else (1,)):
                label = f'{cname}.{meth}: ' + (f'composite of {n}' if c else 'single system')
                with rep.guard(label):
                    Sc = Scene(prog)
                    o = Sc.obj('system', cls)
                    Sc.I.call_hook = hook
                    Sc.I.ext_hook = notsparse
                    inp = Sc.dct(((('sym', 'k0'), ('sym', 'v0')), (('sym', 'k1'), ('sym', 'v1'))))
                    args = [o, inp]
                    if c:
                        subs = [Sc.obj(f's{i}') for i in range(n)]
                        Sc.members(o, 'subSys', subs)
                        inp = Sc.lst([('sym', f'inp{i}') for i in range(n)])
                        args[1] = inp
                    if cname == 'QuantumSystem':
                        # the type of the system is fixed once it is determined
                        for s2, v in Sc.get(o, '_QuantumSystem__compSys'):
                            Sc.st.store[(o, '_QuantumSystem__compSys')] = TRUE if c else FALSE
                    outs = Sc.I.run(fn, args, (), Sc.st)
                    good = 0
                    for st, v in outs:
                        if isinstance(v, Raise) or v == NONE:
                            continue
                        v = Sc.I.freeze(st, v)
                        if c:
                            if v[0] != 'op' or v[1] != 'tensorProd':
                                raise Unknown('state ' + show(v)[:80])
                            parts = v[2]
                            if len(parts) != n:
                                rep.bad(f'initial:{cname}', where(fn), f'the state of {n} sub-systems is the product of {len(parts)}')
                                break
                            for i, p in enumerate(parts):
                                if not (p[0] == 'mcall' and p[1] == subs[i] and p[3] and p[3][0] == ('sym', f'inp{i}')):
                                    if p[0] == 'mcall' and p[1] in subs:
                                        rep.bad(f'initial:{cname}', where(fn), f'factor {i} of the product is {show(p)[:100]} instead '
                                                f'of the state of sub-system {i} from input {i}')
                                        break
                                    raise Unknown('factor ' + show(p)[:80])
                            good += 1
                        else:
                            if v[0] != 'op' or v[1] != 'superPos':
                                raise Unknown('state ' + show(v)[:80])
                            dim, e, pop = v[2]
                            dv = {x for s3, x in Sc.get(o, 'dimension')}
                            coef = next((x for s3, x in Sc.get(o, '_inpCoef')), None)
                            if e not in (inp, Sc.I.freeze(st, inp)):
                                rep.bad(f'initial:{cname}', where(fn), f'the state is created from {show(e)} instead of the input')
                                break
                            if pop is None or not (pop[0] == 'not' and pop[1] == coef):
                                # decided by the branch on the flag
                                k = st.facts.get(('K', coef)) if coef is not None else None
                                t = None if k is None else (True if not (k & set('FNz')) else False if not (k & set('To')) else None)
                                if t is None or pop not in (TRUE, FALSE) or (pop == TRUE) == t:
                                    if pop in (TRUE, FALSE, None) or pop == coef:
                                        rep.bad(f'initial:{cname}', where(fn), 'the input is used as '
                                                + ('coefficients' if pop == FALSE else 'populations') + ' regardless of _inpCoef'
                                                if pop != coef else 'coefficients and populations are exchanged')
                                        break
                                    raise Unknown('populations ' + show(pop)[:80])
                            good += 1
                    else:
                        if good:
                            rep.ok(label, f'{good} paths')
                        else:
                            rep.undecided(label, 'no state is created on any path')


def check(prog, tier='quick'):
    rep = Report('C24', prog, tier, RULE,
                 'Abstract interpretation of every state constructor for symbolic dimensions, excitations and weights in both formats; '
                 'norms and traces of the normal forms are expanded over orthonormal basis vectors.',
                 assumptions=['populations are non-negative reals; the excitations of one superposition are different integers'])
    linear_algebra(prog, rep)
    constructors(prog, rep)
    sums_and_matrices(prog, rep)
    composite(prog, rep)
    bell(prog, rep)
    systems(prog, rep)
    return rep.finish(minimum=40)

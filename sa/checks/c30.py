"""C30: the ready-made models and the phase-space functions equal their definitions."""
import random
from fractions import Fraction
from .common import *
from .c05 import same
from .c06 import OpAlgebra, op, interp as op_interp, leaf
from ..algebra import Unknown, pconst, padd, pneg, madd, mscale, show_mat, pkey
from ..arrays import (ArrayInterp, fmul, conj, power, func, value, diff, tidy, PI, const, real)
from ..banded import var

RULE = ('array interpretation: every element of the returned array as an exact polynomial of the elements of the state, the grid and the parameters, '
        'compared with the defining formula; operator normal forms of the ready-made Hamiltonians')
Q = 'QuantumToolbox.quasiProbabilities.'
H = 'QuantumToolbox.Hamiltonians.'
G = ('sym', 'g')
IU = {(): (Fraction(0), Fraction(1))}
NPTS = 2


def num(x):
    return pconst(Fraction(x))


def points():
    """the grid of points alpha, row by row"""
    xs = [var(('x', k)) for k in range(NPTS)]
    h = fmul(num(Fraction(1, 2)), var(G))
    return xs, [fmul(h, padd(x, fmul(IU, y))) for y in xs for x in xs]


def root(n):
    return power(num(n), Fraction(1, 2))


def fact(n):
    r = 1
    for k in range(2, n + 1):
        r *= k
    return r


def laguerre(n, a, x):
    """generalised Laguerre polynomial L_n^(a)(x)"""
    from math import comb
    r = {}
    for k in range(n + 1):
        c = Fraction((-1) ** k * comb(n + a, n - k), fact(k))
        r = padd(r, fmul(num(c), power(x, Fraction(k))) if k else num(c))
    return r


def wigner_mn(m, n, a):
    """Wigner function of |m><n| at a, for n >= m"""
    aa = fmul(a, conj(a))
    r = fmul(num((-1) ** m), fmul(power(num(Fraction(fact(m), fact(n))), Fraction(1, 2)), laguerre(m, n - m, fmul(num(4), aa))))
    if n > m:
        r = fmul(r, power(fmul(num(2), a), Fraction(n - m)))
    return fmul(fmul(r, func('exp', fmul(num(-2), aa))), power(var(PI), Fraction(-1)))


def wigner(rho, n, a):
    r = {}
    for i in range(n):
        for j in range(i, n):
            t = fmul(rho[i][j], wigner_mn(i, j, a))
            r = padd(r, t if i == j else padd(t, conj(t)))
    return fmul(r, power(var(G), Fraction(2)))


def husimi(rho, n, a):
    """<a|rho|a> g^2 / (4 pi)"""
    c = [fmul(power(num(fact(k)), Fraction(-1, 2)), power(a, Fraction(k)) if k else num(1)) for k in range(n)]
    r = {}
    for i in range(n):
        for j in range(n):
            r = padd(r, fmul(fmul(conj(c[i]), rho[i][j]), c[j]))
    r = fmul(r, func('exp', pneg(fmul(a, conj(a)))))
    return fmul(r, fmul(num(Fraction(1, 4)), fmul(power(var(G), Fraction(2)), power(var(PI), Fraction(-1)))))


def cplx(*name):
    return padd(var(name + ('re',)), fmul(IU, var(name + ('im',))))


def density(n):
    return [[var(('rho', i, i, 're')) if i == j else cplx('rho', i, j) if i < j else conj(cplx('rho', j, i)) for j in range(n)] for i in range(n)]


def ket(n):
    return [cplx('psi', i) for i in range(n)]


class Env:
    """numbers for the atoms, consistent with what they stand for"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.d = {}

    def __call__(self, x):
        if x not in self.d:
            if x[0] in ('lam', 'vec'):
                return None
            self.d[x] = self.r.uniform(0.3, 1.3)
        return self.d[x]


def spectral(I, n, env, routine):
    """eigenvalues and eigenvectors a routine may return for a density matrix, and the numbers of the matrix"""
    r = env.r
    for i in I.eigs:
        vs = []
        for k in range(n):
            v = [complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n)]
            if routine == 'eigh':
                for u in vs:
                    s = sum(a.conjugate() * b for a, b in zip(u, v))
                    v = [b - s * a for a, b in zip(u, v)]
            m = sum(abs(a) ** 2 for a in v) ** .5
            vs.append([a / m for a in v])
        lam = [r.uniform(.1, 1) if routine == 'eigh' else 1 / n for _ in range(n)]
        for k in range(n):
            env.d[('lam', i, k)] = lam[k]
            for j in range(n):
                env.d[('vec', i, j, k, 're')] = vs[k][j].real
                env.d[('vec', i, j, k, 'im')] = vs[k][j].imag
        for a in range(n):
            for b in range(a, n):
                e = sum(lam[k] * vs[k][a] * vs[k][b].conjugate() for k in range(n)) if routine == 'eigh' else complex(a == b) / n
                env.d[('rho', a, b, 're')], env.d[('rho', a, b, 'im')] = e.real, e.imag


def differs(I, n, got, want):
    """numbers for which two polynomials differ, or None"""
    for seed in range(3):
        env = Env(seed)
        routines = {r for r, _ in I.eigs.values()}
        if len(I.eigs) > 1:
            raise Unknown('several decompositions')
        if routines:
            spectral(I, n, env, routines.pop())
        a, b = value(got, env), value(want, env)
        if abs(a - b) > 1e-7 * max(1, abs(a), abs(b)):
            return a, b
    return None


def through_eigen(I, p, n):
    """expected density matrix in terms of the decomposition used by the code"""
    (i, (r, m)), = I.eigs.items()
    rho = [[{} for _ in range(n)] for _ in range(n)]
    for k in range(n):
        for a in range(n):
            for b in range(n):
                t = fmul(var(('lam', i, k)), fmul(cplx('vec', i, a, k), conj(cplx('vec', i, b, k))))
                rho[a][b] = padd(rho[a][b], t)
    return rho


def function(prog, rep, name, definition, n, kind, fmt):
    f = prog.fn(Q + name)
    label = f'{name} of a {kind} of dimension {n}, {"sparse" if fmt == "s" else "array"}'
    I = ArrayInterp(prog)
    st = State()
    xs, alphas = points()
    vec = I.new(st, (NPTS,), xs, 'f')
    if kind == 'ket':
        psi = ket(n)
        arg = I.new(st, (n, 1), psi, 'c', fmt)
        rho = [[fmul(psi[i], conj(psi[j])) for j in range(n)] for i in range(n)]
    else:
        rho = density(n)
        arg = I.new(st, (n, n), [p for r in rho for p in r], 'c', fmt)
    outs = I.run(f, [arg, vec, G], (), st)
    rep.count('paths', len(outs))
    for s, v in outs:
        if isinstance(v, Raise):
            rep.bad(f'{name}:raise:{v.exc}', where(f, v.line), f'{label}: raises {v.exc}')
            return
        r = I.arr(s, v)
        if r is None:
            rep.undecided(label, 'returns ' + show(v)[:80])
            return
        if r[0] != (NPTS, NPTS):
            rep.bad(f'{name}:shape', where(f), f'{label}: the result has the shape {r[0]} for a grid of {NPTS} by {NPTS} points')
            return
        for k, (got, a) in enumerate(zip(r[1], alphas)):
            rep.count('elements')
            got = tidy(got)
            want = tidy(definition(through_eigen(I, None, n) if I.eigs and all(x[0] == 'eigh' for x in I.eigs.values()) and len(I.eigs) == 1 else rho, n, a))
            if got == want:
                continue
            d = differs(I, n, got, tidy(definition(rho, n, a)))
            if d is None:
                rep.undecided(label, 'the element is written in another form')
                return
            why = ''
            if any(x[0] == 'eig' for x in I.eigs.values()):
                why = '; eigenvectors of la.eig are not orthogonal when an eigenvalue is repeated'
            rep.bad(f'{name}:value', where(f), f'{label}: row {k // NPTS}, column {k % NPTS} is {d[0]:.6g} and not {d[1]:.6g} for some state and grid{why}')
            return
    rep.ok(label, f'{len(outs)} paths')


def phase_space(prog, rep, tier):
    top = 6 if tier == 'thorough' else 4
    for name, definition in (('Wigner', wigner), ('HusimiQ', husimi)):
        for n in range(2, top + 1):
            for kind in ('density matrix', 'ket'):
                for fmt in 'as':
                    if n > 3 and fmt == 's' and tier != 'thorough':
                        continue
                    with rep.guard(f'{name} {n} {kind} {fmt}'):
                        function(prog, rep, name, definition, n, kind, fmt)
        with rep.guard(name + ' scale'):
            # the default scale is the root of two
            f = prog.fn(Q + name)
            I = ArrayInterp(prog)
            st = State()
            xs, alphas = points()
            rho = density(2)
            outs = I.run(f, [I.new(st, (2, 2), [p for r in rho for p in r], 'c'), I.new(st, (NPTS,), xs, 'f')], (), st)
            for s, v in outs:
                r = None if isinstance(v, Raise) else I.arr(s, v)
                if r is None:
                    rep.undecided(name + ' scale', 'no result')
                    continue
                env = Env(1)
                env.d[G] = 2 ** .5
                if I.eigs:
                    spectral(I, 2, env, [x[0] for x in I.eigs.values()][0])
                bad = [(value(g, env), value(definition(rho, 2, a), env)) for g, a in zip(r[1], alphas)]
                bad = [x for x in bad if abs(x[0] - x[1]) > 1e-7]
                if bad:
                    rep.bad(f'{name}:scale', where(f), f'{name} with the default scale is {bad[0][0]:.6g} and not {bad[0][1]:.6g} for some state and grid')
                else:
                    rep.ok(name + ' default scale')


def models(prog, rep):
    d = ('sym', 'cavDim')
    wq, wc, g = ('sym', 'qubFreq'), ('sym', 'cavFreq'), ('sym', 'g')
    A = OpAlgebra(leaf=leaf)
    o = lambda n, *a: A.mat(op(n, *[('dimension', x) for x in a]))  # noqa: E731
    one = {(): pconst(1)}
    k = A.kron
    cav = mscale(A.sc(wc), k(o('identity2') if False else one, o('number', d)))
    qub = mscale(A.sc(wq), k(o('sigmaz'), one))
    sm, sp, a, ad = o('sigmam'), o('sigmap'), o('destroy', d), o('create', d)
    gg = A.sc(g)
    free = madd(cav, qub)
    table = {
        'RabiHam': madd(free, mscale(gg, k(o('sigmax'), madd(a, ad)))),
        'JCHam': madd(free, mscale(gg, madd(k(sm, ad), k(sp, a)))),
        'aJCHam': madd(free, mscale(gg, madd(k(sp, ad), k(sm, a)))),
    }
    return d, wq, wc, g, A, cav, qub, table


def hamiltonians(prog, rep):
    d, wq, wc, g, A, cav, qub, table = models(prog, rep)

    def run(name, args):
        I = op_interp(prog)
        I.kinds[d] = frozenset('o')
        f = prog.fn(H + name)
        return f, I, I.run(f, args)

    with rep.guard('qubCavFreeHam'):
        f, I, outs = run('qubCavFreeHam', [wq, wc, d])
        n = 0
        for s, v in outs:
            if isinstance(v, Raise):
                continue
            its = I.known_items(v, s)
            if its is None or len(its) != 2:
                rep.undecided('qubCavFreeHam', 'result')
                continue
            for what, x, want in (('cavity', its[0], cav), ('qubit', its[1], qub)):
                got = A.mat(I.freeze(s, x))
                n += 1
                if same(got, want):
                    rep.ok(f'{what} part of qubCavFreeHam')
                else:
                    rep.bad('qubCavFreeHam:' + what, where(f), f'qubCavFreeHam gives {show_mat(got)[:200]} for the {what} instead of {show_mat(want)[:200]}')
        if not n:
            rep.undecided('qubCavFreeHam', 'no path returns')
    for name, want in table.items():
        with rep.guard(name):
            f, I, outs = run(name, [wq, wc, g, d])
            n = 0
            for s, v in outs:
                if isinstance(v, Raise):
                    continue
                got = A.mat(I.freeze(s, v))
                n += 1
                if not same(got, want):
                    rep.bad('model:' + name, where(f), f'{name} gives {show_mat(got)[:260]} instead of {show_mat(want)[:260]}')
            rep.count('paths', n)
            if n:
                rep.ok(name, f'{n} paths')
            else:
                rep.undecided(name, 'no path returns')


def cleared(p):
    """multiplied by the roots in its denominators"""
    low = {}
    for m in p:
        for x, e in m:
            if x[0] == 'poly' and e < 0:
                low[x] = min(low.get(x, 0), e)
    for x, e in low.items():
        p = fmul(p, {((x, -e),): (Fraction(1), Fraction(0))})
    return tidy(p)


def jc(N, wq, wc, g):
    """H of the truncated cavity and the qubit, the ground state of the qubit first"""
    n = 2 * N
    h = [[{} for _ in range(n)] for _ in range(n)]
    for c in range(N):
        for q in (0, 1):
            h[2 * c + q][2 * c + q] = padd(fmul(num(c), wc), fmul(num(Fraction(2 * q - 1, 2)), wq))
        if c:
            # |c, ground> <-> |c - 1, excited>
            e = fmul(g, root(c))
            h[2 * c][2 * c - 1] = e
            h[2 * c - 1][2 * c] = e
    return h


def analytic(prog, rep, tier):
    T = ('sym', 't')
    f = prog.fn(H + 'UJC')
    wq, wc, g = ('sym', 'wq'), ('sym', 'wc'), ('sym', 'g')
    for N in range(2, 8 if tier == 'thorough' else 5):
        for sparse in (FALSE, TRUE):
            label = f'UJC of a cavity with {N} levels{", sparse" if sparse == TRUE else ""}'
            with rep.guard(label):
                I = ArrayInterp(prog)
                outs = I.run(f, [wq, wc, g, T, C(N), sparse])
                h = jc(N, var(wq), var(wc), var(g))
                n = 2 * N
                for s, v in outs:
                    if isinstance(v, Raise):
                        rep.bad('UJC:raise', where(f, v.line), f'{label}: raises {v.exc}')
                        return
                    r = I.arr(s, v)
                    if r is None:
                        rep.undecided(label, 'returns ' + show(v)[:80])
                        continue
                    if r[0] != (n, n):
                        rep.bad('UJC:shape', where(f), f'{label}: has the shape {r[0]}')
                        return
                    u = [[tidy(r[1][i * n + j]) for j in range(n)] for i in range(n)]
                    und = None
                    for i in range(n):
                        for j in range(n):
                            rep.count('elements')
                            # i dU/dt = H U, and U = 1 at t = 0
                            lhs = fmul(IU, diff(u[i][j], T))
                            rhs = {}
                            for k in range(n):
                                if h[i][k] and u[k][j]:
                                    rhs = padd(rhs, fmul(h[i][k], u[k][j]))
                            x = cleared(tidy(padd(lhs, pneg(rhs))))
                            env0 = Env(3)
                            env0.d[T] = 0.0
                            z = value(u[i][j], env0)
                            if abs(z - (i == j)) > 1e-9:
                                rep.bad('UJC:start', where(f), f'{label}: the element {i}, {j} is {z:.6g} at t = 0')
                                return
                            if x:
                                vals = [abs(value(x, Env(k))) for k in range(4)]
                                if max(vals) > 1e-7:
                                    rep.bad('UJC:equation', where(f), f'{label}: the element {i}, {j} does not solve the Schroedinger equation of '
                                                                      'wc a^ a + wq/2 sz + g (a s+ + a^ s-)')
                                    return
                                und = f'element {i}, {j}'
                    if und:
                        rep.undecided(label, und)
                    else:
                        rep.ok(label)


def check(prog, tier):
    rep = Report('C30', prog, tier, RULE,
                 'Hamiltonians for symbolic frequencies and dimension; phase-space functions for every state of small dimension on every grid; '
                 'the analytic propagator checked against its differential equation.',
                 ['exact arithmetic', 'small dimensions: loops over the dimension are unrolled', 'numpy and scipy behave as documented'])
    with rep.guard('models'):
        hamiltonians(prog, rep)
    with rep.guard('analytic'):
        analytic(prog, rep, tier)
    phase_space(prog, rep, tier)
    return rep.finish(15)

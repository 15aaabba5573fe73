"""C03: matrix elements of the elementary operators for every dimension and spin."""
from fractions import Fraction
from .common import *
from .c06 import interp as opinterp, OpAlgebra, compare
from ..algebra import Algebra, Unknown, madd, mscale, mmulmat, pconst, padd, pmul, pneg, ppow, radsimp, unkey, pkey
from ..banded import Banded, ROW, ROWP, ONEP, var, canon, same_bands, peq

RULE = ('banded-coefficient domain: the elements of every constructor as a polynomial of the row, with the bounds of each diagonal, '
        'against the defining elements')
OPS = 'QuantumToolbox.operators.'


def show_p(p):
    def atom(x):
        if x == ROW:
            return 'row'
        if isinstance(x, tuple) and x and x[0] == 'poly':
            return '(' + show_p(unkey(x[1])) + ')'
        if isinstance(x, tuple) and x and x[0] == 'fn':
            return f'{x[1]}({show_p(unkey(x[2]))})'
        if isinstance(x, tuple) and x and x[0] == 'rad':
            return f'sqrt({x[1]})'
        return show(x) if isinstance(x, tuple) else str(x)
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=repr):
        k = str(c[0]) if c[1] == 0 else f'({c[0]}{"+" if c[1] >= 0 else ""}{c[1]}i)'
        fs = [atom(x) + ('' if e == 1 else f'^{e}') for x, e in m]
        out.append('*'.join(([k] if k != '1' or not fs else []) + fs))
    return ' + '.join(out)


def show_b(b):
    return '; '.join(f'diagonal {k}: rows {show_p(unkey(lo))}..{show_p(unkey(hi))} hold {show_p(unkey(f))}'
                     for k, parts in sorted(b.items()) for lo, hi, f in parts) or 'all zero'


def run(prog, name, args, kwargs=()):
    I = Interp(prog, path_limit=2000)
    f = prog.fn(OPS + name)
    return I, f, I.run(f, args, kwargs)


def one(prog, rep, name, args, B, want, size, key):
    label = f'{name}:{key}'
    with rep.guard(label):
        I, f, outs = run(prog, name, args)
        n = 0
        for st, v in outs:
            if isinstance(v, Raise):
                continue
            v = I.freeze(st, v)
            got, sz = B.bands(v)
            got = B.normal((got, sz))
            exp = B.normal((want, size))
            n += 1
            if not same_bands(got, exp):
                rep.bad(f'elements:{name}', where(f), f'{name} ({key}): {show_b(got)}, instead of {show_b(exp)}')
                return
            if sz is not None and not peq(sz, size):
                rep.bad(f'size:{name}', where(f), f'{name} ({key}) is a square matrix of {show_p(sz)} instead of {show_p(size)}')
                return
        if n:
            rep.count('paths', n)
            rep.ok(label, show_b(B.normal((want, size))))
        else:
            rep.undecided(label, 'no path returns')


def band(k, d, el):
    """{k: element el(row) on the whole diagonal k of a d x d matrix}"""
    return {k: [(pconst(max(0, -k)), padd(d, pconst(-max(0, k))), el)]}


def check(prog, tier='quick'):
    rep = Report('C03', prog, tier, RULE,
                 'Abstract interpretation of every operator constructor for a symbolic dimension or spin in both formats; the returned '
                 'matrix is put into the banded domain (diagonal offsets, row bounds, element as a polynomial of the row).',
                 assumptions=['dimensions are integers and spins multiples of one half; rounding a multiple of one half to one decimal '
                              'is exact', 'scipy and numpy constructors place data at the given rows and columns'])
    d = ('sym', 'dimension')
    D = var(d)
    B = Banded(integer={d})
    fmt = (('sparse', TRUE), ('dense', FALSE))
    sq = lambda p: canon(radsimp(ppow(p, Fraction(1, 2))))      # noqa: E731
    for nm, sp in fmt:
        one(prog, rep, 'number', [d, sp], B, band(0, D, ROWP), D, nm)
        one(prog, rep, 'destroy', [d, sp], B, band(1, D, sq(padd(ROWP, ONEP))), D, nm)
        one(prog, rep, 'create', [d, sp], B, band(-1, D, sq(ROWP)), D, nm)
        one(prog, rep, 'identity', [d, sp], B, band(0, D, ONEP), D, nm)
    # Pauli matrices
    i = pconst(1j)
    P = {'sigmax': {1: [(0, 1)], -1: [(1, 1)]}, 'sigmay': {1: [(0, -1j)], -1: [(1, 1j)]}, 'sigmaz': {0: [(0, 1), (1, -1)]},
         'sigmap': {1: [(0, 1)]}, 'sigmam': {-1: [(1, 1)]}}
    for name, bs in P.items():
        want = {k: [(pconst(r), pconst(r + 1), pconst(v)) for r, v in x] for k, x in bs.items()}
        for nm, sp in fmt:
            one(prog, rep, name, [sp], B, want, pconst(2), nm)
    # spins
    j = ('sym', 'j')
    J = var(j)
    for isdim in (FALSE, TRUE):
        if isdim == FALSE:
            B2 = Banded(half={j})
            n = padd(pmul(pconst(2), J), ONEP)
            s = J
        else:
            B2 = Banded(integer={j})
            n = J
            s = pmul(pconst(Fraction(1, 2)), padd(J, pconst(-1)))
        for nm, sp in fmt:
            key = nm + (', dimension given' if isdim == TRUE else ', spin given')
            m = padd(s, pneg(ROWP))                       # value of Jz in the row
            up = sq(pmul(padd(s, m), padd(padd(s, pneg(m)), ONEP)))     # <m| J+ |m-1>
            m1 = padd(m, pconst(1))
            dn = sq(pmul(padd(s, m1), padd(padd(s, pneg(m1)), ONEP)))   # <m| J- |m+1>
            one(prog, rep, 'Jp', [j, sp, isdim], B2, band(1, n, up), n, key)
            one(prog, rep, 'Jm', [j, sp, isdim], B2, band(-1, n, dn), n, key)
            one(prog, rep, 'Jz', [j, sp, isdim], B2, band(0, n, m), n, key)
            half, h2 = pconst(Fraction(1, 2)), pconst(-0.5j)
            one(prog, rep, 'Jx', [j, sp, isdim], B2, {**band(1, n, pmul(half, up)), **band(-1, n, pmul(half, dn))}, n, key)
            one(prog, rep, 'Jy', [j, sp, isdim], B2, {**band(1, n, pmul(h2, up)), **band(-1, n, pmul(pneg(h2), dn))}, n, key)
            # total spin as a combination of the three components
            with rep.guard('Js:' + key):
                f = prog.fn(OPS + 'Js')
                I = opinterp(prog, drop={'Js'})
                outs = I.run(f, [j, sp, isdim])
                A = OpAlgebra(leaf=lambda t: t if t[0] == 'op' else None, allreal=True)
                args = (('j', j),) + ((('isDim', isdim),) if isdim == TRUE else ())
                want = {}
                for x in 'xyz':
                    o = A.mat(('op', 'J' + x, args))
                    want = madd(want, mmulmat(o, o))
                compare(rep, 'Js:' + key, f, outs, I, want, A, key='')
    return rep.finish(minimum=30)

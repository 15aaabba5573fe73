"""C27: expectation values, fidelities, entropies, distances and reduced states have their definitions."""
from fractions import Fraction
from .common import *
from ..scen import Scene
from ..algebra import (Unknown, madd, mscale, mmulmat, pconst, padd, pmul, pneg, mkey, radsimp, ppow, unkey, pkey, show_mat)
from ..banded import peq, var
from .c24 import StateAlgebra, square, assumes_list

RULE = ('normal form of every measure of the toolbox over symbolic kets and matrices (traces split into brackets, spectra as functionals of '
        'a matrix, reduced states as index contractions), against its definition')
F = 'QuantumToolbox.functions.'
L = 'QuantumToolbox.linearAlgebra.'
HALF = Fraction(1, 2)
EV = ('ev',)
EXT = lambda q: ('ext', q)  # noqa: E731


def fn(name, p):
    return {((('fn', name, pkey(p)), Fraction(1)),): (Fraction(1), Fraction(0))}


class Measure(StateAlgebra):
    """traces over words of kets are split into brackets; eigenvalues of a matrix are functionals of its normal form.
    herm: atoms that are Hermitian; pos(matrix) -> its eigenvalues are real and not negative"""

    def __init__(self, herm=(), pos=None, dim=None, arrays=(), **kw):
        super().__init__(**kw)
        self.arrays = set(arrays)
        self.herm = set(herm)
        self.pos = pos or (lambda m: False)
        self.dim = dim
        for h in herm:
            self.adjmap[h] = h

    # ---- words
    def isbra(self, f):
        return f[0] == 'M' and f[1] in self.kets and f[2] in ('h', 'T')

    def isket(self, f):
        return f[0] == 'M' and f[1] in self.kets and f[2] in ('', 'c')

    def bracket(self, w):
        a, b = w, self._wT(w)
        return var(('br', min(a, b, key=repr)))

    def split(self, w):
        """scalars of a word that starts with a bra and ends with a ket, or None"""
        out = pconst(1)
        seg = None
        for f in w:
            if self.isbra(f):
                if seg is not None:
                    return None
                seg = [f]
            elif seg is None:
                return None
            elif self.isket(f):
                out = pmul(out, self.bracket(tuple(seg) + (f,)))
                seg = None
            else:
                seg.append(f)
        return out if seg is None else None

    def trace(self, m):
        out = {}
        for w, p in m.items():
            i = next((i for i, f in enumerate(w) if self.isbra(f)), None)
            if i is not None:
                s = self.split(w[i:] + w[:i])
                if s is None:
                    raise Unknown('trace of ' + show_mat({w: p}))
            else:
                rots = [w[j:] + w[:j] for j in range(len(w))] or [()]
                wt = self._wT(w)
                rots += [wt[j:] + wt[:j] for j in range(len(w))]
                s = var(('tr', min(rots, key=repr)))
            out = padd(out, pmul(p, s))
        return out

    def isscalar(self, t):
        """a matrix with one element"""
        if not self.is_mat(t):
            return False
        m = self.mat(t)
        return bool(m) and all(w and self.isbra(w[0]) and self.isket(w[-1]) for w in m)

    def pconj(self, p):
        r = {}
        for m, c in p.items():
            term = {(): (c[0], -c[1])}
            for x, e in m:
                if isinstance(x, tuple) and x and x[0] == 'br':
                    y = self.bracket(self._wc(x[1]))
                elif isinstance(x, tuple) and x and x[0] == 'tr':
                    y = self.trace({self._wc(x[1]): pconst(1)})
                elif isinstance(x, tuple) and x and (x[0] in ('sp', 'spi', 'spmax') or x[0] == 'op' and x[1] in ('max', 'min') or x[0] == 'fn' and x[1] in ('abs', 'log')):
                    y = var(x)
                else:
                    y = super().pconj(var(x))
                term = pmul(term, ppow(y, e))
            r = padd(r, term)
        return r

    def re(self, p):
        q = self.pconj(p)
        return p if peq(p, q) else mean(p, q)

    def squares(self, p):
        """even powers of magnitudes are products with the conjugate"""
        out = {}
        for m, c in p.items():
            t = {(): c}
            for x, e in m:
                if isinstance(x, tuple) and x and x[0] == 'fn' and x[1] == 'abs' and e.denominator == 1 and e % 2 == 0:
                    b = self.squares(unkey(x[2]))
                    t = pmul(t, ppow(pmul(b, self.pconj(b)), e / 2))
                elif isinstance(x, tuple) and x and x[0] == 'poly':
                    t = pmul(t, ppow(self.squares(unkey(x[1])), e))
                else:
                    t = pmul(t, {((x, e),): (Fraction(1), Fraction(0))})
            out = padd(out, radsimp(t))
        return out

    # ---- spectra: (key of the matrix, element, masked, order)
    def vec(self, t):
        h = t[0]
        if t in self.arrays:
            return ('array', t), var(EV), False, None, False
        if h == 'idx' and t[1][0] == 'call' and t[1][1][0] == 'ext' and t[1][1][1] in ('scipy.linalg.eig', 'numpy.linalg.eig',
                                                                                     'scipy.linalg.eigh', 'numpy.linalg.eigh') and t[2] == C(0):
            return self.spectrum(t[1][2][0], var(EV), 'val' if t[1][1][1].endswith('h') else None)
        if h == 'call' and t[1][0] == 'ext':
            q, a = t[1][1], t[2]
            if q in ('scipy.linalg.eigvals', 'numpy.linalg.eigvals', 'scipy.linalg.eigvalsh', 'numpy.linalg.eigvalsh'):
                return self.spectrum(a[0], var(EV), 'val' if q.endswith('h') else None)
            if q == 'scipy.linalg.svdvals' or q == 'numpy.linalg.svd' and dict(t[3]).get('compute_uv') == FALSE:
                m = self.mat(a[0])
                return mkey(self.canon(mmulmat(self.adjoint(m), m))), ppow(var(EV), HALF), False, None, True
            if q in ('numpy.abs', 'numpy.absolute', 'builtins.abs', 'numpy.sqrt', 'numpy.log', 'numpy.log2', 'numpy.log10', 'numpy.real', 'numpy.conj',
                     'scipy.sqrt', 'numpy.lib.scimath.sqrt', 'numpy.asarray', 'numpy.array', 'numpy.ravel', 'builtins.list', 'numpy.round', 'numpy.square') and a:
                v = self.vec(a[0])
                if v is None:
                    return None
                M, p, mask, order, pos = v
                n = q.split('.')[-1]
                if n in ('abs', 'absolute'):
                    p = p if pos else fn('abs', p)
                elif n == 'sqrt':
                    p = ppow(p, HALF)
                elif n == 'square':
                    p = pmul(p, p)
                elif n == 'conj':
                    p = p if pos else self.pconj(p)
                elif n == 'log':
                    p = self.log(p)
                elif n in ('log2', 'log10'):
                    p = pmul(self.log(p), ppow(self.log(pconst(int(n[3:]))), -1))
                elif n == 'real':
                    if not pos:
                        p = self.re(self.squares(p))
                elif n == 'round':
                    if not (len(a) == 2 and a[1][0] == 'c' and isinstance(a[1][2], int) and a[1][2] >= 12):
                        raise Unknown('rounding')
                return M, p, mask, order, pos
            if q in ('numpy.sort', 'builtins.sorted') and len(a) == 1 and not t[3]:
                v = self.vec(a[0])
                if v is None:
                    return None
                return v[:3] + (self.ordering(v),) + v[4:]
            if q in ('numpy.power',) and len(a) == 2:
                return self.vec(('bin', '**') + tuple(a))
            if q == 'numpy.multiply':
                return self.vec(('bin', '*') + tuple(a))
        if h == 'attr' and t[2] in ('A', 'T'):
            return self.vec(t[1])
        if h == 'attr' and t[2] == 'real':
            return self.vec(('call', EXT('numpy.real'), (t[1],), ()))
        if h == 'mcall' and t[2] in ('conj', 'conjugate'):
            v = self.vec(t[1])
            return v if v is None or v[4] else (v[0], self.pconj(v[1])) + v[2:]
        if h == 'mcall' and t[2] in ('copy', 'astype', 'flatten', 'ravel', 'toarray', 'todense', 'reshape', 'tolist'):
            return self.vec(t[1])
        if h == 'idx':
            v = self.vec(t[1])
            if v is None:
                return None
            i = t[2]
            M, p, mask, order, pos = v
            if i[0] == 'mcall' and i[2] == 'argsort' and not i[3] or i[0] == 'call' and i[1] == EXT('numpy.argsort') and len(i[2]) == 1:
                k = self.vec(i[1] if i[0] == 'mcall' else i[2][0])
                if k is None or k[0] != M:
                    return None
                # sorted by a growing function of the element
                return M, p, mask, self.ordering(k), pos
            if i[0] == 'cmp' and i[1] in ('!=', '>') and i[3][0] == 'c' and 0 <= abs(i[3][2]) < 1e-9:
                k = self.vec(i[2])
                if k is not None and k[0] == M:
                    return M, p, True, order, pos
            if i[0] == 'slice' and i[1:] in ((NONE, NONE, C(-1)), (None, None, C(-1))):
                return M, p, mask, 'rev' if order == 'val' else None, pos
            return None
        if h == 'bin' and t[1] in '*+-/' or h == 'bin' and t[1] == '**':
            a, b = self.vec(t[2]), self.vec(t[3])
            if a is None and b is None:
                return None
            if a is None or b is None:
                v, s = (a, t[3]) if b is None else (b, t[2])
                k = self.sc(s)
                one, two = (v[1], k) if b is None else (k, v[1])
            else:
                if a[0] != b[0] or a[2:4] != b[2:4]:
                    raise Unknown('two spectra')
                v, one, two = a, a[1], b[1]
            if t[1] == '*':
                p = pmul(one, two)
            elif t[1] == '/':
                p = pmul(one, ppow(two, -1))
            elif t[1] == '**':
                if b is not None or len(two) != 1 or () not in two or two[()][1]:
                    raise Unknown('power')
                p = ppow(one, two[()][0])
            else:
                p = padd(one, two if t[1] == '+' else pneg(two))
            return (v[0], radsimp(p)) + v[2:]
        if h == 'un' and t[1] == '-':
            v = self.vec(t[2])
            return None if v is None else (v[0], pneg(v[1])) + v[2:]
        return None

    def ordering(self, v):
        M, p, mask, order, pos = v
        if p == var(EV) or p == ppow(var(EV), HALF):
            return 'val'
        if p in (fn('abs', var(EV)),):
            return 'abs'
        return None

    def log(self, p):
        return fn('log', p)

    def spectrum(self, t, p, order):
        m = self.canon(self.mat(t))
        return mkey(m), p, False, order, self.pos(m)

    def canon(self, m):
        """eigenvalues do not change under transposition and cyclic rotation of a product"""
        if len(m) == 1:
            (w, p), = m.items()
            c = []
            for x in (w, self._wT(w)):
                c += [x[j:] + x[:j] for j in range(len(x))] or [()]
            return {min(c, key=repr): p}
        t = self.transpose(m)
        return min(m, t, key=lambda x: repr(mkey(x)))

    # ---- scalars
    def sc(self, t):
        h = t[0]
        if h == 'sum' and len(t) == 3:
            return padd(self.sc(t[2]), self.total(t[1]))
        if h == 'mcall' and t[2] == 'sum' and not t[3] and not t[4] and not self.diag(t[1]):
            return self.total(t[1])
        if h == 'mcall' and t[2] == 'item' and not t[3] and self.isscalar(t[1]):
            return self.trace(self.mat(t[1]))
        if h == 'idx' and self.isscalar(t[1]) and t[2] in (('tup', C(0), C(0)), C(0)):
            return self.trace(self.mat(t[1]))
        if h == 'idx' and t[1][0] == 'idx' and self.isscalar(t[1][1]) and t[2] == t[1][2] == C(0):
            return self.trace(self.mat(t[1][1]))
        if h == 'attr' and t[2] in ('real', 'imag'):
            p = self.sc(t[1])
            return self.re(p) if t[2] == 'real' else pmul(pconst((Fraction(0), -HALF)), padd(p, pneg(self.pconj(p))))
        if h == 'call' and t[1][0] == 'ext' and t[1][1] in ('numpy.einsum',):
            raise Unknown('einsum')
        if h == 'call' and t[1][0] == 'ext' and t[2]:
            q, a = t[1][1], t[2]
            n = q.split('.')[-1]
            if n in ('sum',) and q in ('numpy.sum', 'builtins.sum') and not self.diag(a[0]):
                r = self.total(a[0])
                return padd(r, self.sc(a[1])) if len(a) == 2 and q.startswith('builtins') else r
            if q in ('builtins.max', 'numpy.max', 'numpy.amax', 'builtins.min', 'numpy.maximum', 'numpy.fmax'):
                if len(a) == 1 and a[0][0] not in ('L', 'tup'):
                    v = self.vec(a[0])
                    if v is None or n == 'min':
                        raise Unknown('extremum')
                    return self.largest(v)
                items = a[0][1:] if len(a) == 1 else a
                return var(('op', 'min' if n == 'min' else 'max', tuple(sorted((pkey(self.sc(x)) for x in items), key=repr))))
            if q in ('numpy.real',):
                return self.re(self.sc(a[0]))
            if q in ('builtins.abs', 'numpy.abs', 'numpy.absolute') and len(a) == 1:
                p = self.sc(a[0])
                return fn('abs', p)
            if q == 'numpy.power' and len(a) == 2:
                return self.sc(('bin', '**') + tuple(a))
            if q in ('numpy.square',):
                return self.sc(('bin', '**', a[0], C(2)))
            if q in ('builtins.float', 'builtins.complex', 'numpy.float64', 'builtins.round', 'numpy.round', 'numpy.around') and len(a) == 1 and \
                    n not in ('round', 'around'):
                return self.sc(a[0])
            if q in ('numpy.vdot', 'numpy.inner') and len(a) == 2 and self.is_mat(a[0]) and self.is_mat(a[1]) and n == 'vdot':
                return self.trace(mmulmat(self.adjoint(self.mat(a[0])), self.mat(a[1])))
            if q in ('numpy.log', 'math.log') and len(a) == 1:
                return pconst(1) if a[0] in (EXT('numpy.e'), EXT('math.e')) else self.log(self.sc(a[0]))
            if q in ('numpy.log2', 'math.log2', 'numpy.log10', 'math.log10') and len(a) == 1:
                k = pconst(int(n[3:]))
                p = None if a[0] in (EXT('numpy.e'), EXT('math.e')) else self.sc(a[0])
                return pconst(1) if p == k else pmul(pconst(1) if p is None else self.log(p), ppow(self.log(k), -1))
            if q == 'math.log' and len(a) == 2:
                return pmul(self.log(self.sc(a[0])), ppow(self.log(self.sc(a[1])), -1))
            if q in ('numpy.expm1', 'math.expm1') and len(a) == 1:
                return padd(self.sc(('call', EXT('numpy.exp'), a, ())), pconst(-1))
            if q == 'math.exp':
                return self.sc(('call', EXT('numpy.exp'), a, ()))
            if q == 'math.sqrt':
                return self.sc(('call', EXT('numpy.sqrt'), a, ()))
            if q == 'numpy.tanh' or q == 'math.tanh':
                # tanh(x) = 1 - 2/(exp(2x)+1)
                e = self.sc(('call', EXT('numpy.exp'), (('bin', '*', C(2), a[0]),), ()))
                return padd(pconst(1), pmul(pconst(-2), ppow(padd(e, pconst(1)), -1)))
        if h == 'idx' and t[2][0] == 'c':
            v = self.vec(t[1])
            if v is not None:
                return self.element(v, t[2][2])
        if h == 'mcall' and t[2] in ('max',) and not t[3]:
            v = self.vec(t[1])
            if v is not None:
                return self.largest(v)
        r = super().sc(t)
        if r == {((t, Fraction(1)),): (Fraction(1), Fraction(0))} and t[0] not in ('sym', 'op'):
            raise Unknown('number ' + repr(t)[:100])
        return self.exps(r)

    def exps(self, p):
        """exp(-x) = 1/exp(x): only growing exponents are kept"""
        out = {}
        for m, c in p.items():
            t = {(): c}
            for x, e in m:
                if isinstance(x, tuple) and x and x[0] == 'fn' and x[1] == 'exp':
                    k = unkey(x[2])
                    if len(k) == 1:
                        (mm, cc), = k.items()
                        if cc[1] == 0 and cc[0] < 0:
                            x, e = ('fn', 'exp', pkey(pneg(k))), -e
                            k = pneg(k)
                            cc = (-cc[0], cc[1])
                        if cc[1] == 0 and cc[0] != 1 and cc[0].denominator == 1:
                            x, e = ('fn', 'exp', pkey({mm: (Fraction(1), Fraction(0))})), e * cc[0]
                t = pmul(t, {((x, Fraction(e)),): (Fraction(1), Fraction(0))})
            out = padd(out, t)
        return out

    def diag(self, t):
        return t[0] == 'mcall' and t[2] == 'diagonal' and self.is_mat(t[1])

    def total(self, t):
        if t[0] in ('L', 'tup'):
            r = {}
            for x in t[1:]:
                r = padd(r, self.sc(x))
            return r
        if self.diag(t):
            return self.trace(self.mat(t[1]))
        if self.isscalar(t):
            return self.trace(self.mat(t))
        v = self.vec(t)
        if v is None:
            raise Unknown('sum of ' + repr(t)[:100])
        return self.spsum(v)

    def spsum(self, v):
        M, p, mask, order, pos = v
        if self.dim and not mask:
            r = {}
            for i in range(self.dim):
                r = padd(r, self.element(v[:3] + ('val', pos), i))
            return r
        if not pos:
            p = self.squares(p)
        if 'log' in repr(p) and not mask:
            p = pmul(p, var(('sym', 'log of zero')))
        out = {}
        for m, c in p.items():
            k = tuple((x, e) for x, e in m if EV[0] in repr(x))
            rest = tuple((x, e) for x, e in m if EV[0] not in repr(x))
            out = padd(out, pmul({rest: c}, var(('sp', M, k))))
        return out

    def element(self, v, i):
        M, p, mask, order, pos = v
        if order not in ('val', 'rev') and not (order == 'abs' and pos) or mask:
            raise Unknown('element of an unordered spectrum')
        if self.dim:
            i = i % self.dim
            if order == 'rev':
                i = self.dim - 1 - i
        elif i == (0 if order == 'rev' else -1):
            return self.largest(v)
        else:
            raise Unknown('element of a spectrum')
        return radsimp(subst(p, EV, ('spi', M, i)))

    def largest(self, v):
        M, p, mask, order, pos = v
        if self.dim:
            return self.element(v[:2] + (False, 'val', pos), -1)
        return radsimp(subst(p, EV, ('spmax', M)))

    def positiveatom(self, x):
        return x[0] in ('spi', 'spmax')


def mean(p, q):
    return pmul(pconst(HALF), padd(p, q))


def subst(p, a, b):
    out = {}
    for m, c in p.items():
        t = {(): c}
        for x, e in m:
            if x == a:
                x = b
            elif isinstance(x, tuple) and x and x[0] == 'fn' and a[0] in repr(x):
                x = (x[0], x[1], pkey(subst(unkey(x[2]), a, b)))
            elif isinstance(x, tuple) and x and x[0] == 'poly':
                x = ('poly', pkey(subst(unkey(x[1]), a, b)))
            t = pmul(t, {((x, e),): (Fraction(1), Fraction(0))})
        out = padd(out, t)
    return out


def sq(a, b):
    return {('eq', ('idx', ('attr', a, 'shape'), C(0)), ('idx', ('attr', a, 'shape'), C(1))): b}


def arr(a):
    return {('I+', a): frozenset({EXT('numpy.ndarray')})}


def nolist(a):
    return {('I-', a): frozenset({EXT('builtins.list')})}


def hook(ops):
    """the named functions of the package stay symbolic operations of their arguments"""
    def call(I, f, args, kwargs, st, line):
        if f.key in ops:
            return [(st, ('op', f.name, tuple(args)))]
        return None
    return call


SIGMAY = ('op', 'sigmay', ())


def ops(I, f, args, kwargs, st, line):
    if f.key.endswith('operators.sigmay'):
        return [(st, SIGMAY)]
    return None


def run(prog, name, args, facts, kinds=True):
    f = prog.fn(name)
    I = Interp(prog)
    I.call_hook = ops
    I.max_rec = 6
    st = State()
    st.facts.update(facts)
    for a in args:
        if a[0] == 'sym':
            I.kinds[a] = frozenset('o')
    return f, I, I.run(f, args, (), st)


def imag_zero(st):
    return any(k[0] in ('eq', 'EQ') and ('imag' in repr(k)) and (v is True or v == C(0) or v == ('c', 'float', 0.0)) for k, v in st.facts.items())


def judge(rep, label, key, f, I, outs, A, want, skip=None, get=None, ask=None):
    """every path returns one of the accepted values"""
    wants = want if isinstance(want, list) else [want]
    wants = [A.squares(w) for w in wants]
    n = 0
    for st, v in outs:
        if isinstance(v, Raise) or assumes_list(A, st) or (skip and skip(st)):
            continue
        v = I.freeze(st, v)
        if get:
            v = get(v)
        got = A.squares(A.sc(v))
        n += 1
        ws = wants
        if imag_zero(st):
            got = A.re(got)
            ws = [A.re(w) for w in wants]
        if not any(peq(got, w) for w in ws):
            rep.bad(key, where(f), f'{label}: gives {show_mat({(): got})} instead of {show_mat({(): ws[0]})}'[:700])
            return
    if n:
        rep.count('paths', n)
        rep.ok(label, f'{n} paths')
    else:
        rep.undecided(label, 'no path returns')


def expectations(prog, rep):
    O, r, k = ('sym', 'operator'), ('sym', 'rho'), ('sym', 'ket')
    A = Measure(mats=[O, r], kets=[k])
    mo, mr, mk = A.atom(O), A.atom(r), A.atom(k)
    ex = {'density matrix': (r, True, A.trace(mmulmat(mo, mr))), 'ket': (k, False, A.trace(mmulmat(mo, mmulmat(mk, A.adjoint(mk)))))}
    oo = mmulmat(mo, mo)
    sqs = {'density matrix': A.trace(mmulmat(oo, mr)), 'ket': A.trace(mmulmat(oo, mmulmat(mk, A.adjoint(mk))))}
    for nm, (s, square_, want) in ex.items():
        with rep.guard('expectation:' + nm):
            f, I, outs = run(prog, F + 'expectation', [O, s], {**sq(s, square_), **nolist(s)})
            judge(rep, f'expectation value in a {nm}', f'form:expectation:{nm}', f, I, outs, A, want)
        # the operator of a standard deviation is Hermitian
        B = Measure(mats=[O, r], kets=[k], herm=[O, r])
        e = B.trace(mmulmat(B.atom(O), B.atom(s) if square_ else mmulmat(B.atom(k), B.adjoint(B.atom(k)))))
        e2 = B.trace(mmulmat(mmulmat(B.atom(O), B.atom(O)), B.atom(s) if square_ else mmulmat(B.atom(k), B.adjoint(B.atom(k)))))
        want = radsimp(ppow(padd(e2, pneg(pmul(e, e))), HALF))
        for flag in (TRUE, FALSE):
            with rep.guard(f'standardDev:{nm}:{flag[2]}'):
                f, I, outs = run(prog, F + 'standardDev', [O, s, flag], {**sq(s, square_), **nolist(s)})
                outs = [(st, v) for st, v in outs if not any(v_ is False and 'imag' in repr(k_) for k_, v_ in st.facts.items())]
                if flag == FALSE:
                    judge(rep, f'standard deviation in a {nm}', f'form:standardDev:{nm}', f, I, outs, B, want)
                else:
                    for i, (part, w) in enumerate((('deviation', want), ('expectation value', e))):
                        judge(rep, f'standard deviation with expectation value in a {nm}: {part}', f'form:standardDev:{nm}:{part}', f, I, outs, B, w,
                              get=lambda v, i=i: member(v, i))
    with rep.guard('_expectationColArr'):
        f, I, outs = run(prog, F + '_expectationColArr', [O, ('sym', 'states')], {})
        V = ('sym', 'states')
        B = Measure(mats=[O, V])
        want = mmulmat(mmulmat(B.adjoint(B.atom(V)), B.atom(O)), B.atom(V))
        for st, v in outs:
            v = I.freeze(st, v)
            if v[0] == 'mcall' and v[2] == 'diagonal':
                m = v[1]
            elif v[0] == 'call' and v[1] in (EXT('numpy.diagonal'), EXT('numpy.diag')) and len(v[2]) == 1:
                m = v[2][0]
            else:
                raise Unknown('not a diagonal: ' + show(v)[:100])
            if B.mat(m) != want:
                rep.bad('form:_expectationColArr', where(f), f'diagonal of {show_mat(B.mat(m))} instead of {show_mat(want)}')
                break
        else:
            rep.ok('expectation values of the columns')


def member(v, i):
    if v[0] not in ('tup', 'L') or len(v) <= i + 1:
        raise Unknown('not a pair: ' + repr(v)[:80])
    return v[i + 1]


def fidelities(prog, rep):
    names = ('ket', 'density matrix')
    for i, n1 in enumerate(names):
        for j, n2 in enumerate(names):
            a, b = ('sym', 'state1'), ('sym', 'state2')
            A = Measure(kets=[x for x, n in ((a, i), (b, j)) if n == 0], mats=[x for x, n in ((a, i), (b, j)) if n == 1],
                        herm=[x for x, n in ((a, i), (b, j)) if n == 1])

            def dm(x, n):
                m = A.atom(x)
                return m if n else mmulmat(m, A.adjoint(m))
            want = A.trace(mmulmat(dm(a, i), dm(b, j)))
            with rep.guard(f'fidelity:{n1}:{n2}'):
                f, I, outs = run(prog, F + 'fidelityPure', [a, b], {**sq(a, i == 1), **sq(b, j == 1), **nolist(a), **nolist(b)})
                judge(rep, f'fidelity of a {n1} with a {n2}', f'form:fidelityPure:{n1}:{n2}', f, I, outs, A, want)
    with rep.guard('iprKet'):
        for n in (1, 2, 3):
            ks, x = [('sym', f'basis{i}') for i in range(n)], ('sym', 'ket')
            A = Measure(kets=ks + [x])
            Sc = Scene(prog)
            f = prog.fn('QuantumToolbox.IPR.iprKet')
            tot = {}
            for y in ks + [x]:
                Sc.I.kinds[y] = frozenset('o')
                Sc.st.facts.update({**sq(y, False), **nolist(y)})
            for y in ks:
                o = pmul(A.trace(mmulmat(A.adjoint(A.atom(y)), A.atom(x))), A.trace(mmulmat(A.adjoint(A.atom(x)), A.atom(y))))
                tot = padd(tot, pmul(o, o))
            outs = Sc.I.run(f, [Sc.lst(ks), x], (), Sc.st)
            judge(rep, f'participation ratio over {n} basis states', 'form:iprKet', f, Sc.I, outs, A, radsimp(ppow(tot, -1)))


def spectra(prog, rep):
    a, b, O = ('sym', 'A'), ('sym', 'B'), ('sym', 'operator')
    D0 = Measure(mats=[a, b], herm=[a, b])
    d = madd(D0.atom(a), mscale(pconst(-1), D0.atom(b)))
    dd = mmulmat(D0.adjoint(d), d)
    with rep.guard('traceDistance'):
        A = Measure(mats=[a, b], herm=[a, b], pos=lambda m: m == A.canon(dd))
        want = [pmul(pconst(HALF), A.spsum((mkey(A.canon(dd)), ppow(var(EV), HALF), False, None, True))),
                pmul(pconst(HALF), A.spsum((mkey(A.canon(d)), fn('abs', var(EV)), False, None, False)))]
        f, I, outs = run(prog, F + 'traceDistance', [a, b], {})
        judge(rep, 'trace distance', 'form:traceDistance', f, I, outs, A, want)
    r, k = ('sym', 'rho'), ('sym', 'ket')
    for nm, s, square_ in (('density matrix', r, True), ('ket', k, False)):
        for base2 in (TRUE, FALSE):
            with rep.guard(f'entropy:{nm}:{base2[2]}'):
                A = Measure(mats=[r], kets=[k], herm=[r], pos=lambda m: True)
                m = A.atom(r) if square_ else mmulmat(A.atom(k), A.adjoint(A.atom(k)))
                p = pneg(pmul(var(EV), A.log(var(EV))))
                if base2 == TRUE:
                    p = pmul(p, ppow(A.log(pconst(2)), -1))
                want = A.spsum((mkey(A.canon(m)), p, True, None, True))
                f, I, outs = run(prog, F + 'entropy', [s, base2], {**sq(s, square_), **nolist(s), **(arr(s) if square_ else {})})
                judge(rep, f'entropy of a {nm}, {"base two" if base2 == TRUE else "natural logarithm"}', f'form:entropy:{nm}:{base2[2]}', f, I, outs, A, want)
    with rep.guard('spectralNorm'):
        A = Measure(mats=[O], pos=lambda m: m == A.canon(mmulmat(A.adjoint(A.atom(O)), A.atom(O))))
        M = mkey(A.canon(mmulmat(A.adjoint(A.atom(O)), A.atom(O))))
        f, I, outs = run(prog, F + 'spectralNorm', [O], {})
        judge(rep, 'spectral norm', 'form:spectralNorm', f, I, outs, A, ppow(var(('spmax', M)), HALF), get=lambda v: member(v, 0))
    for nm, s, square_ in (('density matrix', r, True), ('ket', k, False)):
        with rep.guard('concurrence:' + nm):
            A = Measure(mats=[r, SIGMAY], kets=[k], herm=[r, SIGMAY], pos=lambda m: True, dim=4)
            y = A.kron(A.atom(SIGMAY), A.atom(SIGMAY))
            m = A.atom(r) if square_ else mmulmat(A.atom(k), A.adjoint(A.atom(k)))
            R = mmulmat(m, mmulmat(mmulmat(y, A.conj(m)), y))
            M = mkey(A.canon(R))
            e = [ppow(var(('spi', M, i)), HALF) for i in range(4)]
            p = padd(e[3], pneg(padd(e[2], padd(e[1], e[0]))))
            want = var(('op', 'max', tuple(sorted((pkey({}), pkey(p)), key=repr))))
            f, I, outs = run(prog, F + 'concurrence', [s], {**sq(s, square_), **nolist(s), **(arr(s) if square_ else {}), ('I-', SIGMAY): frozenset({EXT('builtins.int')})})
            judge(rep, f'concurrence of a {nm}', f'form:concurrence:{nm}', f, I, outs, A, want)


def thermal(prog, rep):
    T = 'QuantumToolbox.thermodynamics.'
    w, t, hb, kb = (('sym', x) for x in ('frequency', 'temperature', 'hbar', 'kb'))
    A = Measure(real=[w, t, hb, kb])
    x = pmul(pmul(var(hb), var(w)), pmul(ppow(var(t), -1), ppow(var(kb), -1)))
    e = fn('exp', x)
    with rep.guard('nBarThermal'):
        f, I, outs = run(prog, T + 'nBarThermal', [w, t, hb, kb], {('eq', t, C(0)): False})
        outs = [(st, v) for st, v in outs if not any(k == ('EQ', t) for k in st.facts)]
        outs = [(st, v) for st, v in outs if not (v == C(0) and any(t in (k[1:] if isinstance(k, tuple) else ()) for k in st.facts))]
        judge(rep, 'thermal occupation', 'form:nBarThermal', f, I, outs, A, ppow(padd(e, pconst(-1)), -1))
    with rep.guard('qubitPolarisation'):
        e = fn('exp', pmul(var(w), ppow(var(t), -1)))
        f, I, outs = run(prog, T + 'qubitPolarisation', [w, t], {})
        # 1 - 2/(1 + 1/e)
        judge(rep, 'qubit polarisation', 'form:qubitPolarisation', f, I, outs, A, padd(pconst(1), pmul(pconst(-2), ppow(padd(pconst(1), ppow(e, -1)), -1))))
    with rep.guard('HeatCurrent'):
        Lb, H, r = ('sym', 'Lindbladian'), ('sym', 'Hamiltonian'), ('sym', 'rho')
        f = prog.fn(T + 'HeatCurrent')
        I = Interp(prog)

        class B_(Measure):
            def mat(self, t):
                if t[0] == 'op' and t[1] in ('vec2Mat', 'mat2Vec'):
                    return self.atom(('op', t[1], mkey(self.mat(t[2][0]))))
                return super().mat(t)

            def is_mat(self, t):
                return t[0] == 'op' and t[1] in ('vec2Mat', 'mat2Vec') or super().is_mat(t)

        def h(I, f, args, kwargs, st, line):
            if f.key.endswith('states.mat2Vec') or f.key.endswith('states.vec2Mat'):
                return [(st, ('op', f.name, tuple(args)))]
            return None
        I.call_hook = h
        B = B_(mats=[Lb, H, r], herm=[H])
        v = ('op', 'mat2Vec', (r,))
        der = B.atom(('op', 'vec2Mat', mkey(mmulmat(B.atom(Lb), B.mat(v)))))
        want = B.re(B.trace(mmulmat(der, B.atom(H))))
        for a in (Lb, H, r):
            I.kinds[a] = frozenset('o')
        judge(rep, 'heat current', 'form:HeatCurrent', f, I, I.run(f, [Lb, H, r]), B, want)


def products(prog, rep):
    ms = [('sym', f'M{i}') for i in range(4)]
    ds = [('sym', f'd{i}') for i in range(4)]
    A = Measure(mats=ms)
    for n in (1, 2, 3, 4):
        for pat in range(2 ** n):
            bits = [(pat >> i) & 1 for i in range(n)]
            if n > 2 and 0 < sum(bits) < n and sum(bits) not in (1,):
                continue
            label = 'tensor product of ' + ', '.join('a dimension' if b else 'a matrix' for b in bits)
            with rep.guard(label):
                f = prog.fn(L + 'tensorProd')
                I = Interp(prog)
                I.max_rec = 6
                st = State()
                args = []
                want = None
                for i, b in enumerate(bits):
                    x = ds[i] if b else ms[i]
                    I.kinds[x] = frozenset('z' if b else 'o')
                    st.facts[('I+' if b else 'I-', x)] = frozenset({EXT('builtins.int')})
                    one = {(('M', ('op', 'identity', (x,)), ''),): pconst(1)} if b else A.atom(x)
                    want = one if want is None else A.kron(want, one)
                    args.append(x)
                B = Kron(mats=ms)
                outs = I.run(f, args, (), st)
                k = 0
                for s2, v in outs:
                    if isinstance(v, Raise):
                        continue
                    k += 1
                    got = B.mat(I.freeze(s2, v))
                    if got != want:
                        rep.bad('form:tensorProd', where(f), f'{label}: gives {show_mat(got)} instead of {show_mat(want)}')
                        break
                else:
                    rep.ok(label) if k else rep.undecided(label, 'no path returns')
        with rep.guard(f'_matMulInputs:{n}'):
            f = prog.fn(L + '_matMulInputs')
            I = Interp(prog)
            I.max_rec = 6
            for x in ms:
                I.kinds[x] = frozenset('o')
            want = A.atom(ms[0])
            for x in ms[1:n]:
                want = mmulmat(want, A.atom(x))
            matrices(rep, f'product of {n} matrices', 'form:_matMulInputs', f, I, I.run(f, ms[:n]), A, want)
        with rep.guard(f'_matPower:{n}'):
            f = prog.fn(L + '_matPower')
            I = Interp(prog)
            I.max_rec = 6
            I.kinds[ms[0]] = frozenset('o')
            want = A.atom(ms[0])
            for _ in range(n - 1):
                want = mmulmat(want, A.atom(ms[0]))
            matrices(rep, f'power {n} of a matrix', 'form:_matPower', f, I, I.run(f, [ms[0], C(n)]), A, want)


class Kron(Measure):
    """identities keep their dimension"""

    def mat(self, t):
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('scipy.sparse.identity', 'scipy.sparse.eye', 'numpy.identity', 'numpy.eye') and \
                len(t[2]) == 1:
            return {(('M', ('op', 'identity', (t[2][0],)), ''),): pconst(1)}
        return super().mat(t)


def matrices(rep, label, key, f, I, outs, A, want):
    n = 0
    for st, v in outs:
        if isinstance(v, Raise):
            continue
        n += 1
        got = A.mat(I.freeze(st, v))
        if got != want:
            rep.bad(key, where(f), f'{label}: gives {show_mat(got)} instead of {show_mat(want)}')
            return
    rep.ok(label) if n else rep.undecided(label, 'no path returns')


class Index:
    """evaluates index computations (lists of axes and dimensions) of a term; dimensions are monomials: sorted tuples of symbols"""

    def __init__(self):
        self.env = {}

    def truth(self, fact):
        k, want = fact
        if k[0] == 'in':
            return (self.val(k[1]) in self.val(k[2])) == want
        if k[0] == 'eq' and len(k) == 3:
            return (self.val(k[1]) == self.val(k[2])) == want
        if k[0] == 'lt' and len(k) == 3:
            return (self.val(k[1]) < self.val(k[2])) == want
        raise Unknown('condition ' + repr(k)[:80])

    def mono(self, x):
        if isinstance(x, tuple):
            return x
        if x == 1:
            return ()
        raise Unknown('dimension')

    def val(self, t):
        if t in self.env:
            return self.env[t]
        h = t[0]
        if h == 'c' and isinstance(t[2], (int, bool)):
            return t[2]
        if h == 'sym':
            return (t[1],)
        if h in ('L', 'tup'):
            return [self.val(x) for x in t[1:]]
        if h == 'range':
            return list(range(*[self.val(x) for x in t[1:]]))
        if h == 'cat':
            out = []
            for x in t[1:]:
                out = out + self.val(x)
            return out
        if h in ('map', 'filter') and len(t) >= 3:
            out = []
            for x in self.val(t[2]):
                old = dict(self.env)
                self.env[('elem', t[2])] = x
                for facts, body in t[1]:
                    if all(self.truth(f) for f in facts):
                        out.append(self.val(body))
                        break
                self.env = old
            return out
        if h == 'bin':
            a, b = self.val(t[2]), self.val(t[3])
            if t[1] == '+' and type(a) is type(b) and isinstance(a, (int, list)):
                return a + b
            if t[1] == '-' and isinstance(a, int) and isinstance(b, int):
                return a - b
            if t[1] == '*':
                if isinstance(a, list) and isinstance(b, int) or isinstance(a, int) and isinstance(b, (int, list)):
                    return a * b
                return tuple(sorted(self.mono(a) + self.mono(b)))
        if h == 'len' or h == 'attr' and t[2] == 'size' or h == 'call' and t[1] in (EXT('builtins.len'), EXT('numpy.size')):
            return len(self.val(t[2][0] if h == 'call' else t[1]))
        if h == 'idx' and t[1][0] == 'attr' and t[1][2] == 'shape' and t[2] == C(0):
            return len(self.val(t[1][1]))
        if h == 'idx':
            a = self.val(t[1])
            if t[2][0] == 'slice':
                return a[slice(*[None if x in (None, NONE) else self.val(x) for x in t[2][1:]])]
            i = self.val(t[2])
            return [a[j] for j in i] if isinstance(i, list) else a[i]
        if h == 'mcall' and t[2] in ('tolist', 'copy', 'astype', 'flatten'):
            return self.val(t[1])
        if h == 'mcall' and t[2] == 'prod' and not t[3]:
            return self.prod(self.val(t[1]))
        if h == 'call' and t[1][0] == 'ext':
            q = t[1][1]
            a = [self.val(x) for x in t[2]]
            if q in ('numpy.asarray', 'numpy.array', 'builtins.list', 'builtins.tuple', 'builtins.int', 'numpy.copy', 'builtins.set'):
                return a[0]
            if q == 'numpy.tile' and len(a) == 2:
                return a[0] * a[1]
            if q in ('numpy.prod', 'math.prod', 'numpy.product'):
                return self.prod(a[0])
            if q in ('numpy.concatenate', 'numpy.hstack'):
                return [y for x in a[0] for y in x]
            if q in ('builtins.sorted', 'numpy.sort'):
                return sorted(a[0])
            if q in ('numpy.arange',):
                return list(range(*a))
        raise Unknown('index ' + repr(t)[:100])

    def prod(self, xs):
        out = ()
        for x in xs:
            out = tuple(sorted(out + self.mono(x)))
        return out


class Wrong(Exception):
    pass


def axes(t, A, base, dims):
    """the axes of a tensor made from a matrix over the systems: each a list of ('r'|'c', system); traced pairs are dropped.
    Returns (axes, traced)"""
    ix = Index()
    n = len(dims)
    flat = [('r', i) for i in range(n)] + [('c', i) for i in range(n)]
    size = [(d[1],) for d in dims]

    def regroup(units, shape):
        out, k = [], 0
        for s in shape:
            s = ix.mono(s)
            acc, g = (), []
            while acc != s:
                if k >= len(units):
                    raise Wrong('shape ' + ' x '.join('*'.join(ix.mono(x)) or '1' for x in shape))
                acc = tuple(sorted(acc + size[units[k][1]]))
                g.append(units[k])
                k += 1
                if len(acc) > len(s):
                    raise Wrong('shape ' + ' x '.join('*'.join(ix.mono(x)) or '1' for x in shape))
            out.append(g)
        if k != len(units):
            raise Wrong('shape ' + ' x '.join('*'.join(ix.mono(x)) or '1' for x in shape))
        return out

    def pair(g1, g2):
        if len(g1) != len(g2) or any(a[0] == b[0] or a[1] != b[1] for a, b in zip(g1, g2)):
            raise Wrong(f'axes of {g1} and {g2} are traced together')
        return {a[1] for a in g1}

    def go(t):
        if A.is_mat(t):
            m = A.mat(t)
            if m != base:
                raise Wrong('matrix ' + show_mat(m))
            return [flat[:n], flat[n:]], set()
        if t[0] == 'mcall' and t[2] == 'reshape' or t[0] == 'call' and t[1] == EXT('numpy.reshape'):
            src, args = (t[1], t[3]) if t[0] == 'mcall' else (t[2][0], t[2][1:])
            g, tr = go(src)
            shape = ix.val(args[0]) if len(args) == 1 else [ix.val(x) for x in args]
            return regroup([u for x in g for u in x], shape if isinstance(shape, list) else [shape]), tr
        if t[0] == 'call' and t[1] == EXT('numpy.einsum') and len(t[2]) in (2, 3):
            g, tr = go(t[2][0])
            lab = ix.val(t[2][1])
            if len(lab) != len(g):
                raise Wrong(f'{len(lab)} labels for {len(g)} axes')
            where_ = {}
            for i, x in enumerate(lab):
                where_.setdefault(x, []).append(i)
            out = ix.val(t[2][2]) if len(t[2]) == 3 else sorted(x for x, p in where_.items() if len(p) == 1)
            for x, p in where_.items():
                if x in out:
                    if len(p) > 1:
                        raise Wrong('diagonal elements instead of a trace')
                    continue
                if len(p) != 2:
                    raise Wrong('summed axis')
                tr = tr | pair(g[p[0]], g[p[1]])
            return [g[where_[x][0]] for x in out], tr
        if t[0] == 'call' and t[1] == EXT('numpy.trace') or t[0] == 'mcall' and t[2] == 'trace':
            src, args, kw = (t[2][0], t[2][1:], t[3]) if t[0] == 'call' else (t[1], t[3], t[4])
            g, tr = go(src)
            kw = dict(kw)
            rest = list(args) + [None] * (3 - len(args))
            i = ix.val(rest[1] or kw.get('axis1', C(0)))
            j = ix.val(rest[2] or kw.get('axis2', C(1)))
            tr = tr | pair(g[i], g[j])
            i, j = i % len(g), j % len(g)
            return [x for k, x in enumerate(g) if k not in (i, j)], tr
        if t[0] == 'mcall' and t[2] == 'transpose' or t[0] == 'call' and t[1] == EXT('numpy.transpose'):
            src, args = (t[1], t[3]) if t[0] == 'mcall' else (t[2][0], t[2][1:])
            g, tr = go(src)
            perm = ix.val(args[0]) if len(args) == 1 else [ix.val(x) for x in args]
            return [g[i] for i in perm], tr
        raise Unknown('tensor ' + repr(t)[:100])
    return go(t)


def reduced(prog, rep, tier):
    from itertools import combinations
    f = prog.fn(L + 'partialTrace')
    r, k = ('sym', 'rho'), ('sym', 'ket')
    for n in range(1, 5 if tier == 'thorough' else 4):
        for m in range(1, n + 1):
            for keep in combinations(range(n), m):
                for s in (r, k):
                    label = f'systems {list(keep)} of {n} kept in a {"density matrix" if s == r else "ket"}'
                    with rep.guard(label):
                        Sc = Scene(prog)
                        Sc.I.max_rec = 6
                        A = Measure(mats=[r], kets=[k])
                        Sc.I.kinds[s] = frozenset('o')
                        Sc.st.facts.update({**sq(s, s == r), **arr(s)})
                        dims = [('sym', f'd{i}') for i in range(n)]
                        base = A.atom(r) if s == r else mmulmat(A.atom(k), A.adjoint(A.atom(k)))
                        outs = Sc.I.run(f, [Sc.lst([C(i) for i in keep]), Sc.lst(dims), s], (), Sc.st)
                        c = 0
                        for st, v in outs:
                            if isinstance(v, Raise) or (s == r) in {not x for x in square(st)}:
                                continue
                            c += 1
                            try:
                                g, tr = axes(Sc.I.freeze(st, v), A, base, dims)
                                want = [[(x, i) for i in keep] for x in 'rc']
                                if g != want:
                                    raise Wrong(f'the rows and columns of the result are over {g} instead of {want}')
                            except Wrong as e:
                                rep.bad('form:partialTrace', where(f), f'{label}: {e}')
                                break
                        else:
                            rep.ok(label) if c else rep.undecided(label, 'no path returns')


def components(prog, rep):
    """statistics of eigenvectors: magnitudes of components, eigenvalues with their own eigenvectors"""
    M, k = ('sym', 'matrix'), ('sym', 'ket')
    EIG = [('idx', ('call', EXT('scipy.linalg.eig'), (x,), ()), C(1)) for x in (M, ('attr', M, 'A'))]
    for name, label, power, arrays, inv in (('IPR.iprKetNB', 'participation ratio of a ket', 4, [M], True),
                                            ('eigenVecVal._eigStat', 'statistics of the eigenvectors of a matrix', 2, EIG, False),
                                            ('eigenVecVal._eigStatEig', 'statistics of given eigenvectors', 2, [M], False)):
        with rep.guard(label):
            f, I, outs = run(prog, 'QuantumToolbox.' + name, [M], {})
            A = Measure(arrays=arrays)
            x = pmul(var(EV), var(('conj', EV)))
            x = pmul(x, x) if power == 4 else x
            n = 0
            for st, v in outs:
                if isinstance(v, Raise):
                    continue
                v = I.freeze(st, v)
                n += 1
                if inv:
                    got = A.squares(A.sc(v))
                    goods = [radsimp(ppow(A.spsum((('array', a), x, False, None, False)), -1)) for a in arrays]
                    if not any(peq(got, g) for g in goods):
                        rep.bad('form:' + name, where(f), f'{label}: gives {show_mat({(): got})} instead of {show_mat({(): goods[0]})}')
                        break
                else:
                    got = A.vec(v)
                    if got is None:
                        raise Unknown('array ' + repr(v)[:100])
                    if not peq(A.squares(got[1]), x) or got[2]:
                        rep.bad('form:' + name, where(f), f'{label}: gives {show_mat({(): A.squares(got[1])})} of each component instead of '
                                f'{show_mat({(): x})}')
                        break
            else:
                rep.ok(label, f'{n} paths') if n else rep.undecided(label, 'no path returns')
    for n in (2, 4):
        for symp in (TRUE, FALSE):
            label = f'statistics of a ket over {n} basis states' + (', in pairs' if symp == TRUE else '')
            with rep.guard(label):
                f = prog.fn('QuantumToolbox.eigenVecVal.eigVecStatKet')
                Sc = Scene(prog)

                def h(I, fn_, args, kwargs, st, line):
                    if fn_.key.endswith('states.mat2Vec'):
                        return [(st, args[0])]
                    return None
                Sc.I.call_hook = h
                bs = [('sym', f'basis{i}') for i in range(n)]
                A = Measure(kets=bs + [k])
                for y in bs + [k]:
                    Sc.I.kinds[y] = frozenset('o')
                    Sc.st.facts.update({**sq(y, False), **nolist(y)})
                reg = [pmul(A.trace(mmulmat(A.adjoint(A.atom(y)), A.atom(k))), A.trace(mmulmat(A.adjoint(A.atom(k)), A.atom(y)))) for y in bs]
                pairs = [padd(reg[2 * i], reg[2 * i + 1]) for i in range(n // 2)] if symp == TRUE else []
                outs = Sc.I.run(f, [Sc.lst(bs), k, symp], (), Sc.st)
                for st, v in outs:
                    v = Sc.I.freeze(st, v)
                    a, b = member(v, 0), member(v, 1)
                    if a[0] != 'L' or b[0] != 'L':
                        raise Unknown('lists')
                    got = [A.squares(A.sc(x)) for x in a[1:]], [A.squares(A.sc(x)) for x in b[1:]]
                    if len(got[0]) != n or len(got[1]) != len(pairs) or not all(peq(x, y) for x, y in zip(got[0] + got[1], reg + pairs)):
                        rep.bad('form:eigVecStatKet', where(f), f'{label}: gives {[show_mat({(): x}) for x in got[0] + got[1]]} instead of '
                                f'{[show_mat({(): x}) for x in reg + pairs]}'[:700])
                        break
                else:
                    rep.ok(label)
    for mag in (FALSE, TRUE):
        label = 'eigenvalues sorted by ' + ('magnitude' if mag == TRUE else 'value')
        with rep.guard(label):
            f, I, outs = run(prog, F + 'sortedEigens', [M, mag], {}, )
            f = prog.fn(F + 'sortedEigens')
            I = Interp(prog)

            def h2(I, fn_, args, kwargs, st, line):
                if fn_.key.endswith('states.mat2Vec'):
                    return [(st, ('op', 'mat2Vec', tuple(args)))]
                return None
            I.call_hook = h2
            I.kinds[M] = frozenset('o')
            n = 0
            for st, v in I.run(f, [M, mag]):
                if isinstance(v, Raise):
                    continue
                v = I.freeze(st, v)
                n += 1
                why = sorted_pairs(v, mag == TRUE, M)
                if why:
                    rep.bad('form:sortedEigens', where(f), f'{label}: {why}')
                    break
            else:
                rep.ok(label, f'{n} paths') if n else rep.undecided(label, 'no path returns')


def isall(x):
    return x[0] == 'slice' and all(y in (None, NONE) for y in x[1:])


def sorted_pairs(v, mag, M):
    """the reason why values and vectors do not belong together, or None"""
    vals, vecs = member(v, 0), member(v, 1)
    A = Measure(mats=[M])
    if vals[0] != 'idx' or vals[1][0] != 'idx' or vals[1][1][0] != 'call' or vals[1][2] != C(0):
        raise Unknown('values ' + repr(vals)[:100])
    eig, P = vals[1][1], vals[2]
    E0, E1 = ('idx', eig, C(0)), ('idx', eig, C(1))
    if eig[1][1].split('.')[-1] not in ('eig', 'eigh'):
        raise Unknown('eigenvalues')
    key = P[1] if P[0] == 'mcall' and P[2] == 'argsort' and not P[3] else P[2][0] if P[0] == 'call' and P[1] == EXT('numpy.argsort') and \
        len(P[2]) == 1 else None
    if key is None:
        raise Unknown('permutation ' + repr(P)[:100])
    k = A.vec(key)
    if k is None or k[0] != A.vec(E0)[0]:
        raise Unknown('permutation ' + repr(P)[:100])
    want = fn('abs', var(EV)) if mag else var(EV)
    if not peq(k[1], want):
        return f'sorted by {show_mat({(): k[1]})} instead of {show_mat({(): want})}'
    if vecs[0] != 'map':
        raise Unknown('vectors ' + repr(vecs)[:100])

    def peel(x):
        """(matrix, transposed, conjugated)"""
        tr = cj = False
        while True:
            if x[0] == 'attr' and x[2] == 'T' or x[0] == 'mcall' and x[2] == 'transpose' and not x[3]:
                x, tr = x[1], not tr
            elif x[0] == 'mcall' and x[2] in ('conj', 'conjugate') and not x[3]:
                x, cj = x[1], not cj
            elif x[0] == 'call' and x[1][0] == 'ext' and x[1][1] in ('numpy.conj', 'numpy.conjugate', 'numpy.transpose') and len(x[2]) == 1:
                if x[1][1].endswith('transpose'):
                    tr = not tr
                else:
                    cj = not cj
                x = x[2][0]
            else:
                return x, tr, cj
    for facts, body in vecs[1]:
        x = body
        if x[0] == 'op' and x[1] == 'mat2Vec':
            x = x[2][0]
        i = ('elem', vecs[2])
        cols = None
        x, _, conj = peel(x)
        if x == i and vecs[2][0] != 'range':
            # the rows of a matrix one after another
            i = ('pos', 'row')
            base, tr, cj = peel(vecs[2])
            x = ('idx', ('attr', base, 'T') if tr else base, i)
            conj ^= cj
        elif vecs[2][0] != 'range':
            raise Unknown('vectors ' + repr(vecs)[:100])

        def column(x):
            """(matrix, axis, position)"""
            if x[0] == 'idx' and x[2][0] == 'tup' and len(x[2]) == 3:
                if isall(x[2][1]):
                    return x[1], 1, x[2][2]
                if isall(x[2][2]):
                    return x[1], 0, x[2][1]
            elif x[0] == 'idx' and x[2][0] != 'tup' and x[1][0] == 'attr' and x[1][2] == 'T':
                return x[1][1], 1, x[2]
            elif x[0] == 'idx' and x[2][0] != 'tup':
                return x[1], 0, x[2]
            return None
        cols = column(x)
        if cols is None:
            raise Unknown('vector ' + repr(x)[:100])
        base, ax, pos = cols
        if base == E1:
            if pos == ('idx', P, i):
                if ax == 0:
                    return 'a row of the eigenvectors is taken for a vector'
                if conj:
                    return 'the vectors are the complex conjugates of the eigenvectors'
                continue
            if pos == i or pos[0] == 'pos':
                return 'the vectors are not sorted like the values'
            raise Unknown('vector ' + repr(x)[:100])
        inner = column(base)
        if inner is None or inner[0] != E1:
            raise Unknown('vector ' + repr(x)[:100])
        if ax == 0:
            return 'a row of the eigenvectors is taken for a vector'
        if inner[1] == 0:
            return 'the rows of the eigenvectors are sorted instead of the columns'
        if inner[2] != P:
            return 'the vectors are sorted by another permutation than the values'
        if conj:
            return 'the vectors are the complex conjugates of the eigenvectors'
    return None


def check(prog, tier):
    rep = Report('C27', prog, tier, RULE,
                 'Every measure of the toolbox was interpreted for symbolic operators and states (kets and density matrices) and its result '
                 'compared as a normal form with the definition.',
                 ['states and the operators of standard deviations are Hermitian (or kets)', 'rounding to 12 or more digits is the identity',
                  'scipy and numpy compute eigenvalues, traces and products'])
    with rep.guard('reduced'):
        reduced(prog, rep, tier)
    for part in (expectations, fidelities, spectra, thermal, products, components):
        with rep.guard(part.__name__):
            part(prog, rep)
    return rep.finish(30)

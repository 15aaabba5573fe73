"""Normal forms of matrix and scalar expressions produced by the interpreter: sums of scalar polynomials times words of
non-commuting matrix factors, with transposition, conjugation, Kronecker products and exponentials pushed to canonical places.
Two expressions with the same normal form denote the same matrix for every value of their symbols."""
from fractions import Fraction
import cmath

ONE = ()


class Unknown(Exception):
    pass


def cnum(x):
    if isinstance(x, bool):
        return (Fraction(int(x)), Fraction(0))
    if isinstance(x, (int, Fraction)):
        return (Fraction(x), Fraction(0))
    if isinstance(x, float):
        return (Fraction(x), Fraction(0))
    if isinstance(x, complex):
        return (Fraction(x.real), Fraction(x.imag))
    raise Unknown(f'number {x!r}')


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    if d == 0:
        raise Unknown('division by zero')
    return (a[0] / d, -a[1] / d)


# ---------------------------------------------------------------- scalar polynomials: {monomial: complex}
def pconst(x):
    c = cnum(x) if not isinstance(x, tuple) else x
    return {} if c == (0, 0) else {ONE: c}


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        s = cadd(r.get(m, (Fraction(0), Fraction(0))), c)
        if s == (0, 0):
            r.pop(m, None)
        else:
            r[m] = s
    return r


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=repr))


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            r = padd(r, expand({mmul(m, n): cmul(c, d)}))
    return r


def expand(p):
    """positive integer powers of ('poly', key) atoms are multiplied out"""
    out = {}
    changed = False
    for m, c in p.items():
        for i, (x, e) in enumerate(m):
            if isinstance(x, tuple) and x[0] == 'poly' and e >= 1:
                base = unkey(x[1])
                rest = {m[:i] + (((x, e - 1),) if e - 1 != 0 else ()) + m[i + 1:]: c}
                out = padd(out, pmul(rest, base))
                changed = True
                break
        else:
            out = padd(out, {m: c})
    return out if changed else p


def pkey(p):
    return tuple(sorted(p.items(), key=repr))


def unkey(k):
    return dict(k)


def pneg(p):
    return {m: (-c[0], -c[1]) for m, c in p.items()}


def positive(x):
    """is the atom never negative?"""
    return isinstance(x, tuple) and (x[0] == 'rad' or (x[0] == 'fn' and x[1] in ('abs', 'cosh')) or x in POSITIVE)


POSITIVE = set()


def ppow(p, e):
    """p ** e for a rational e"""
    e = Fraction(e)
    if e == 0:
        return pconst(1)
    if not p:
        return {}
    if e.denominator == 1 and e > 0:
        r = pconst(1)
        for _ in range(int(e)):
            r = pmul(r, p)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator != 1 and any(y.denominator == 1 and y % 2 == 0 and (y * e) % 2 != 0 and not positive(x) for x, y in m):
            # the root of an even power is the magnitude
            out = ppow({ONE: c}, e)
            rest = []
            for x, y in m:
                if y.denominator == 1 and y % 2 == 0 and (y * e) % 2 != 0 and not positive(x):
                    out = pmul(out, {((('fn', 'abs', pkey({((x, Fraction(1)),): (Fraction(1), Fraction(0))})), y * e),): (Fraction(1), Fraction(0))})
                else:
                    rest.append((x, y))
            return pmul(out, ppow({tuple(rest): (Fraction(1), Fraction(0))}, e)) if rest else out
        if e.denominator == 1:
            k = pconst(1)
            ci = cinv(c)
            for _ in range(int(-e)):
                k = pmul(k, {ONE: ci})
            return pmul(k, {tuple((x, y * e) for x, y in m): (Fraction(1), Fraction(0))})
        if not m:
            if c[1] == 0 and c[0] > 0 and e.denominator == 2:
                n, d = c[0].numerator, c[0].denominator
                # perfect squares, otherwise square-free radical
                v = n * d
                s = 1
                f = 2
                while f * f <= v and f < 10000:
                    while v % (f * f) == 0:
                        v //= f * f
                        s *= f
                    f += 1
                root = pmul(pconst(Fraction(s, d)), {((('rad', v), Fraction(1)),): (Fraction(1), Fraction(0))} if v != 1
                            else pconst(1))
                r = pconst(1)
                num = abs(e.numerator)
                for _ in range(num):
                    r = radsimp(pmul(r, root))
                return r if e > 0 else ppow_inv_rad(r)
        else:
            # single monomial with coefficient: split
            if c[1] == 0 and c[0] > 0 and e.denominator == 2:
                return pmul(ppow({ONE: c}, e), {tuple((x, y * e) for x, y in m): (Fraction(1), Fraction(0))})
    return {((('poly', pkey(p)), e),): (Fraction(1), Fraction(0))}


def ppow_inv_rad(r):
    if len(r) == 1:
        (m, c), = r.items()
        # 1/(c*sqrt(v)) = sqrt(v)/(c*v)
        k = {ONE: cinv(c)}
        for x, e in m:
            if x[0] == 'rad' and e == 1:
                k = pmul(k, {((x, Fraction(1)),): (Fraction(1, x[1]), Fraction(0))})
            else:
                k = pmul(k, {((x, -e),): (Fraction(1), Fraction(0))})
        return k
    return {((('poly', pkey(r)), Fraction(-1)),): (Fraction(1), Fraction(0))}


def radsimp(p):
    out = {}
    for m, c in p.items():
        mm = []
        for x, e in m:
            if isinstance(x, tuple) and x[0] == 'rad':
                k = int(e) // 2
                if k:
                    c = cmul(c, (Fraction(x[1]) ** k, Fraction(0)))
                if e - 2 * k:
                    mm.append((x, e - 2 * k))
            else:
                mm.append((x, e))
        out = padd(out, {tuple(mm): c})
    return out


def leading_negative(p):
    k = pkey(p)
    if not k:
        return False
    c = k[0][1]
    return c[0] < 0 or (c[0] == 0 and c[1] < 0)


# ---------------------------------------------------------------- matrices: {word: polynomial}
def madd(a, b):
    r = dict(a)
    for w, p in b.items():
        s = padd(r.get(w, {}), p)
        if s:
            r[w] = s
        else:
            r.pop(w, None)
    return r


def mscale(p, a):
    r = {}
    for w, q in a.items():
        s = radsimp(pmul(p, q))
        if s:
            r[w] = s
    return r


def wmul(u, v):
    """product of two words with adjacent Kronecker factors merged"""
    w = list(u)
    for f in v:
        if w and f[0] == 'kron' and w[-1][0] == 'kron' and len(f[1]) == len(w[-1][1]):
            parts = tuple(wmul(a, b) for a, b in zip(w[-1][1], f[1]))
            w[-1] = ('kron', parts, f[2])
            if all(p == () for p in parts):
                w.pop()
        else:
            w.append(f)
    return tuple(w)


def mmulmat(a, b):
    r = {}
    for u, p in a.items():
        for v, q in b.items():
            r = madd(r, mscale(pmul(p, q), {wmul(u, v): pconst(1)}))
    return r


def mkey(a):
    return tuple(sorted(((w, pkey(p)) for w, p in a.items()), key=repr))


class Algebra:
    """real: scalar atoms known to be real; mats: terms that are square matrices; adj: atom -> its adjoint;
    realmat: atoms with real entries; leaf(term) -> None | normal form | atom term"""

    def __init__(self, mats=(), real=(), adj=None, realmat=(), leaf=None, kets=(), allreal=False):
        self.mats, self.real, self.kets = set(mats), set(real), set(kets)
        self.adjmap = adj or {}
        self.realmat = set(realmat)
        self.leaf = leaf or (lambda t: None)
        self.allreal = allreal

    # ---- classification
    def is_mat(self, t):
        if t in self.mats or t in self.kets:
            return True
        h = t[0]
        lf = self.leaf(t)
        if lf is not None:
            return True
        if h == 'bin':
            if t[1] == '@':
                return True
            return self.is_mat(t[2]) or self.is_mat(t[3])
        if h == 'un':
            return self.is_mat(t[2])
        if h == 'attr':
            return t[2] in ('T', 'A', 'H') and self.is_mat(t[1])
        if h == 'mcall':
            return self.is_mat(t[1]) and t[2] in ('conj', 'conjugate', 'transpose', 'toarray', 'todense', 'tocsc', 'tocsr', 'copy',
                                                  'getH', 'dot', 'multiply', 'astype', 'tocoo', 'tolil')
        if h == 'call' and t[1][0] == 'ext':
            q = t[1][1]
            if q in MATFUN:
                return True
            if q in ('numpy.conj', 'numpy.transpose', 'numpy.copy', 'copy.copy', 'copy.deepcopy') and t[2]:
                return self.is_mat(t[2][0])
        return False

    def plausible(self, st):
        """the path does not assume that a matrix is None or a boolean"""
        for k, v in st.facts.items():
            if k[0] == 'K' and 'o' not in v and isinstance(k[1], tuple) and self.is_mat(k[1]):
                return False
        return True

    # ---- scalars
    def sc(self, t):
        h = t[0]
        if h == 'c':
            if t[1] in ('int', 'float', 'complex', 'bool'):
                return pconst(t[2])
            raise Unknown(f'constant {t!r}')
        if h == 'bin':
            op = t[1]
            if op == '+':
                return padd(self.sc(t[2]), self.sc(t[3]))
            if op == '-':
                return padd(self.sc(t[2]), pneg(self.sc(t[3])))
            if op == '*':
                return radsimp(pmul(self.sc(t[2]), self.sc(t[3])))
            if op == '/':
                return radsimp(pmul(self.sc(t[2]), ppow(self.sc(t[3]), -1)))
            if op == '**':
                e = self.sc(t[3])
                if not e:
                    return pconst(1)
                if len(e) == 1 and ONE in e and e[ONE][1] == 0:
                    return radsimp(ppow(self.sc(t[2]), e[ONE][0]))
        if h == 'un' and t[1] == '-':
            return pneg(self.sc(t[2]))
        if h == 'un' and t[1] == '+':
            return self.sc(t[2])
        if h == 'call' and t[1][0] == 'ext':
            q = t[1][1]
            a = t[2]
            if q == 'numpy.sqrt' and len(a) == 1:
                return radsimp(ppow(self.sc(a[0]), Fraction(1, 2)))
            if q in ('builtins.round', 'numpy.round') and len(a) == 2 and a[1][0] == 'c' and isinstance(a[1][2], int) \
                    and a[1][2] >= 12:
                return self.sc(a[0])
            if q in ('builtins.float', 'builtins.complex', 'numpy.complex128', 'numpy.float64', 'builtins.int', 'numpy.asarray',
                     'builtins.abs' if False else 'builtins.complex') and len(a) == 1:
                if q == 'builtins.int':
                    p = self.sc(a[0])
                    if all(c[1] == 0 and c[0].denominator == 1 for c in p.values()) and all(m == ONE for m in p):
                        return p
                    return {((('fn', 'int', pkey(p)), Fraction(1)),): (Fraction(1), Fraction(0))}
                return self.sc(a[0])
            if q in ('numpy.conj',) and len(a) == 1:
                return self.pconj(self.sc(a[0]))
            if q == 'numpy.pi':
                pass
            if q in ('numpy.exp', 'numpy.cos', 'numpy.sin', 'numpy.cosh', 'numpy.sinh', 'numpy.tan') and len(a) == 1:
                p = self.sc(a[0])
                n = q.split('.')[-1]
                if not p and n in ('exp', 'cos', 'cosh'):
                    return pconst(1)
                if not p:
                    return {}
                sign = 1
                if n in ('cos', 'cosh', 'sin', 'sinh', 'tan') and leading_negative(p):
                    p = pneg(p)
                    sign = -1 if n in ('sin', 'sinh', 'tan') else 1
                return {((('fn', n, pkey(p)), Fraction(1)),): (Fraction(sign), Fraction(0))}
            if q == 'builtins.pow' and len(a) == 2:
                return self.sc(('bin', '**', a[0], a[1]))
        if h == 'mcall' and t[2] in ('conj', 'conjugate') and not t[3]:
            return self.pconj(self.sc(t[1]))
        return {((t, Fraction(1)),): (Fraction(1), Fraction(0))}

    def isreal(self, atom):
        if self.allreal:
            return True
        if atom in self.real:
            return True
        if isinstance(atom, tuple):
            if atom[0] == 'rad':
                return True
            if atom[0] == 'ext' and atom[1] in ('numpy.pi', 'numpy.e'):
                return True
            if atom[0] == 'fn' and atom[1] in ('cos', 'sin', 'cosh', 'sinh', 'tan', 'exp'):
                return self.pconj(unkey(atom[2])) == unkey(atom[2])
            if atom[0] == 'poly':
                return self.pconj(unkey(atom[1])) == unkey(atom[1])
            if atom[0] == 'sym' or atom[0] in ('elem', 'attr', 'item', 'sub'):
                return atom in self.real
        return False

    def pconj(self, p):
        r = {}
        for m, c in p.items():
            mm = ONE
            for x, e in m:
                if self.isreal(x):
                    y = x
                elif isinstance(x, tuple) and x[0] == 'conj':
                    y = x[1]
                elif isinstance(x, tuple) and x[0] == 'fn':
                    y = (x[0], x[1], pkey(self.pconj(unkey(x[2]))))
                elif isinstance(x, tuple) and x[0] == 'poly':
                    y = ('poly', pkey(self.pconj(unkey(x[1]))))
                else:
                    y = ('conj', x)
                mm = mmul(mm, ((y, e),))
            r = padd(r, {mm: (c[0], -c[1])})
        return r

    # ---- matrices
    def atom(self, t):
        return {(('M', t, ''),): pconst(1)}

    def mat(self, t):
        lf = self.leaf(t)
        if lf is not None:
            return lf if isinstance(lf, dict) else self.atom(lf)
        if t in self.mats or t in self.kets:
            return self.atom(t)
        h = t[0]
        if h == 'bin':
            op, a, b = t[1:4]
            if op == '@':
                return mmulmat(self.mat(a), self.mat(b))
            if op == '+':
                if a[0] == 'c' and a[2] == 0:
                    return self.mat(b)
                return madd(self.mat(a), self.mat(b))
            if op == '-':
                return madd(self.mat(a), mscale(pconst(-1), self.mat(b)))
            if op == '*':
                ma, mb = self.is_mat(a), self.is_mat(b)
                if ma and mb:
                    raise Unknown('product * of two matrices')
                return mscale(self.sc(a), self.mat(b)) if mb else mscale(self.sc(b), self.mat(a))
            if op == '/' and not self.is_mat(b):
                return mscale(ppow(self.sc(b), -1), self.mat(a))
            if op == '**' and b[0] == 'c' and isinstance(b[2], int) and 0 < b[2] < 6:
                raise Unknown('matrix power with **')
        if h == 'un' and t[1] == '-':
            return mscale(pconst(-1), self.mat(t[2]))
        if h == 'un' and t[1] == '+':
            return self.mat(t[2])
        if h == 'attr':
            if t[2] == 'T':
                return self.transpose(self.mat(t[1]))
            if t[2] == 'A':
                return self.mat(t[1])
            if t[2] == 'H':
                return self.adjoint(self.mat(t[1]))
        if h == 'mcall':
            n = t[2]
            if n in ('conj', 'conjugate') and not t[3]:
                return self.conj(self.mat(t[1]))
            if n == 'transpose' and not t[3]:
                return self.transpose(self.mat(t[1]))
            if n == 'getH':
                return self.adjoint(self.mat(t[1]))
            if n in ('toarray', 'todense', 'tocsc', 'tocsr', 'copy', 'tocoo', 'tolil', 'todok'):
                return self.mat(t[1])
            if n == 'astype':
                return self.mat(t[1])
            if n == 'dot' and len(t[3]) == 1 and self.is_mat(t[3][0]):
                return mmulmat(self.mat(t[1]), self.mat(t[3][0]))
        if h == 'call' and t[1][0] == 'ext':
            q, a = t[1][1], t[2]
            kw = dict(t[3])
            if q in ('scipy.sparse.identity', 'scipy.sparse.eye', 'numpy.identity', 'numpy.eye') and len(a) == 1:
                return {(): pconst(1)}
            if q in ('scipy.sparse.kron', 'numpy.kron') and len(a) >= 2:
                return self.kron(self.mat(a[0]), self.mat(a[1]))
            if q in ('scipy.linalg.expm', 'scipy.sparse.linalg.expm'):
                return self.expm(self.mat(a[0]))
            if q in ('scipy.sparse.csc_matrix', 'scipy.sparse.csr_matrix', 'numpy.array', 'numpy.asarray', 'scipy.sparse.csc_array'):
                if len(a) >= 1 and self.is_mat(a[0]):
                    return self.mat(a[0])
                if a and a[0][0] in ('tup', 'L') and len(a[0]) == 3 and q.startswith('scipy') and \
                        not self.is_mat(a[0]) and all(x[0] != 'L' for x in a[0][1:]) and a[0][1] == a[0][2]:
                    return {}       # csc_matrix((n, n)): all zeros
            if q in ('scipy.sparse.csc_matrix', 'scipy.sparse.csr_matrix', 'scipy.sparse.coo_matrix') and a and \
                    a[0][0] == 'tup' and len(a[0]) == 3 and a[0][1][0] == 'L' and len(a[0][1]) > 1 and \
                    all(x[0] == 'c' and x[2] == 0 for x in a[0][1][1:]):
                return {}       # only explicit zeros
            if q in ('numpy.zeros',):
                return {}
            if q == 'numpy.matmul' or q == 'numpy.dot':
                return mmulmat(self.mat(a[0]), self.mat(a[1]))
            if q in ('numpy.conj',) and len(a) == 1:
                return self.conj(self.mat(a[0]))
            if q == 'numpy.transpose' and len(a) == 1:
                return self.transpose(self.mat(a[0]))
            if q in ('copy.copy', 'copy.deepcopy', 'numpy.copy'):
                return self.mat(a[0])
        raise Unknown('matrix ' + repr(t)[:120])

    # word operations
    def _fT(self, f):
        if f[0] == 'M':
            return ('M', f[1], {'': 'T', 'T': '', 'c': 'h', 'h': 'c'}[f[2]])
        if f[0] == 'kron':
            return ('kron', tuple(self._wT(w) for w in f[1]), f[2])
        if f[0] == 'expm':
            return ('expm', mkey(self.transpose(dict((w, unkey(p)) for w, p in f[1]))))
        raise Unknown('transpose')

    def _wT(self, w):
        return self.normw(tuple(self._fT(f) for f in reversed(w)))

    def _fc(self, f):
        if f[0] == 'M':
            return ('M', f[1], {'': 'c', 'c': '', 'T': 'h', 'h': 'T'}[f[2]])
        if f[0] == 'kron':
            return ('kron', tuple(self._wc(w) for w in f[1]), f[2])
        if f[0] == 'expm':
            return ('expm', mkey(self.conj(dict((w, unkey(p)) for w, p in f[1]))))
        raise Unknown('conj')

    def _wc(self, w):
        return self.normw(tuple(self._fc(f) for f in w))

    def normw(self, w):
        out = []
        for f in w:
            if f[0] == 'M' and f[2]:
                t, op = f[1], f[2]
                if t in self.realmat:
                    op = {'T': 'h', 'c': '', 'h': 'h'}[op]
                if op == 'h' and t in self.adjmap:
                    t, op = self.adjmap[t], ''
                if op == 'T' and t in self.adjmap:
                    t, op = self.adjmap[t], 'c'
                    if t in self.realmat:
                        op = ''
                f = ('M', t, op)
            out.append(f)
        return tuple(out)

    def transpose(self, a):
        return {self._wT(w): p for w, p in a.items()}

    def conj(self, a):
        return {self._wc(w): self.pconj(p) for w, p in a.items()}

    def adjoint(self, a):
        return self.conj(self.transpose(a))

    def kron(self, a, b):
        r = {}
        for u, p in a.items():
            for v, q in b.items():
                pu = u[0][1] if len(u) == 1 and u[0][0] == 'kron' else (u,)
                pv = v[0][1] if len(v) == 1 and v[0][0] == 'kron' else (v,)
                parts = tuple(pu) + tuple(pv)
                r = madd(r, mscale(pmul(p, q), {(('kron', parts, ''),): pconst(1)}))
        return r

    def expm(self, a):
        if not a:
            return {(): pconst(1)}
        return {(('expm', mkey(a)),): pconst(1)}


MATFUN = {'scipy.sparse.identity', 'scipy.sparse.eye', 'numpy.identity', 'numpy.eye', 'scipy.sparse.kron', 'numpy.kron',
          'scipy.linalg.expm', 'scipy.sparse.linalg.expm', 'scipy.sparse.csc_matrix', 'scipy.sparse.csr_matrix', 'numpy.matmul',
          'numpy.dot', 'numpy.zeros'}


def show_mat(a):
    def fs(f):
        if f[0] == 'M':
            from .interp import show
            return show(f[1]) + {'': '', 'T': '^T', 'c': '^*', 'h': '^H'}[f[2]]
        if f[0] == 'kron':
            return '(' + ' (x) '.join(' '.join(fs(x) for x in w) or '1' for w in f[1]) + ')'
        if f[0] == 'expm':
            return 'exp(' + show_mat({w: unkey(p) for w, p in f[1]}) + ')'
        return str(f)

    def ps(p):
        from .interp import show
        out = []
        for m, c in p.items():
            cs = str(c[0]) if c[1] == 0 else (f'{c[1]}i' if c[0] == 0 else f'({c[0]}+{c[1]}i)')

            def at(x):
                if x[0] in ('fn',):
                    return f'{x[1]}({ps(unkey(x[2]))})'
                if x[0] == 'poly':
                    return f'({ps(unkey(x[1]))})'
                if x[0] == 'rad':
                    return f'sqrt({x[1]})'
                return show(x)
            out.append('*'.join([cs] + [at(x) + ('' if e == 1 else f'^{e}') for x, e in m]))
        return ' + '.join(out) or '0'
    return ' + '.join(f'[{ps(p)}] ' + (' '.join(fs(f) for f in w) or '1') for w, p in a.items()) or '0'

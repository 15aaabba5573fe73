"""Banded-coefficient domain: matrices whose non-zero elements lie on diagonals, with each element given as a polynomial of its row.

An indexed sequence is (length, element(i)); a matrix is {offset: [(first row, end row, element(row)), ...]} over symbolic bounds."""
from fractions import Fraction
from .algebra import Algebra, Unknown, pconst, padd, pmul, pneg, ppow, radsimp, pkey, unkey, ONE, mmul
from .interp import show

ROW = ('#row',)
ONEP = pconst(1)


def var(a):
    return {((a, Fraction(1)),): (Fraction(1), Fraction(0))}


ROWP = var(ROW)


def constval(p):
    """the rational value of a constant polynomial, else None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p and p[ONE][1] == 0:
        return p[ONE][0]
    return None


def psub(p, atom, q):
    """substitute polynomial q for an atom in p (also inside radicals and functions)"""
    out = {}
    for m, c in p.items():
        term = {ONE: c}
        for x, e in m:
            if x == atom:
                f = ppow(q, e)
            elif isinstance(x, tuple) and x and x[0] == 'poly':
                f = ppow(psub(unkey(x[1]), atom, q), e)
            elif isinstance(x, tuple) and x and x[0] == 'fn' and len(x) == 3:
                f = {((('fn', x[1], pkey(psub(unkey(x[2]), atom, q))), e),): (Fraction(1), Fraction(0))}
            else:
                f = {((x, e),): (Fraction(1), Fraction(0))}
            term = pmul(term, f)
        out = padd(out, term)
    return canon(radsimp(out))


def canon(p):
    """merge products of square roots: sqrt(a) sqrt(b) = sqrt(ab)"""
    out = {}
    for m, c in p.items():
        halves = [(x, e) for x, e in m if isinstance(x, tuple) and x and x[0] == 'poly' and e.denominator == 2]
        if len(halves) > 1:
            prod = ONEP
            for x, e in halves:
                prod = pmul(prod, ppow(unkey(x[1]), e * 2))
            rest = {tuple((x, e) for x, e in m if (x, e) not in halves): c}
            out = padd(out, pmul(rest, ppow(prod, Fraction(1, 2))))
        else:
            out = padd(out, {m: c})
    return radsimp(out)


class Banded(Algebra):
    """integer: atoms that are integers; half: atoms that are multiples of one half; dim: the dimension of square results"""

    def __init__(self, integer=(), half=()):
        super().__init__(allreal=True)
        self.integer, self.half = set(integer), set(half)
        self.env = {}

    # ---- scalars
    def intval(self, p, scale=1):
        """is scale * p an integer for every value of its symbols?"""
        for m, c in p.items():
            if c[1] != 0:
                return False
            k = c[0] * scale
            for x, e in m:
                if e < 1 or e.denominator != 1:
                    return False
                if x in self.half:
                    k = k / (2 ** int(e))
                elif x not in self.integer and x != ROW:
                    return False
            if k.denominator != 1:
                return False
        return True

    def sc(self, t):
        h = t[0]
        if t in self.env:
            return self.env[t]
        if h == 'bin' and t[1] == '//':
            p = radsimp(pmul(self.sc(t[2]), ppow(self.sc(t[3]), -1)))
            if self.intval(p):
                return p
            return var(('fn', 'floor', pkey(p)))
        if h == 'call' and t[1][0] == 'ext':
            q, a = t[1][1], t[2]
            if q in ('builtins.int', 'math.floor', 'math.ceil', 'numpy.floor', 'numpy.ceil', 'numpy.rint', 'operator.index') and len(a) == 1:
                p = self.sc(a[0])
                return p if self.intval(p) else var(('fn', 'int', pkey(p)))
            if q in ('builtins.round', 'numpy.round', 'numpy.around'):
                nd = 0
                kw = dict(t[3])
                if len(a) == 2 or kw:
                    x = a[1] if len(a) == 2 else kw.get('decimals', kw.get('ndigits'))
                    if x is None or x[0] != 'c' or not isinstance(x[2], int):
                        raise Unknown('round')
                    nd = x[2]
                p = self.sc(a[0])
                # multiples of one half are kept by one decimal
                if self.intval(p, 2 if nd >= 1 else 1):
                    return p
                return var(('fn', f'round{nd}', pkey(p)))
            if q in ('numpy.sqrt', 'math.sqrt', 'cmath.sqrt') and len(a) == 1:
                return canon(radsimp(ppow(self.sc(a[0]), Fraction(1, 2))))
            if q in ('builtins.float', 'builtins.complex', 'numpy.float64', 'numpy.real') and len(a) == 1:
                return self.sc(a[0])
            if q == 'builtins.sum' and False:
                pass
        if h == 'len':
            return self.vec(t[1])[0]
        if h in ('idx', 'sub'):
            n, f = self.vec(t[1])
            i = self.sc(t[2])
            v = constval(i)
            if v is not None and v < 0:
                i = padd(n, i)
            return f(i)
        if h in ('elem', 'item', 'fn'):
            raise Unknown('element of ' + show(t)[:60])
        if h == 'ite' and False:
            pass
        if h == 'bin' and t[1] == '*':
            return canon(radsimp(pmul(self.sc(t[2]), self.sc(t[3]))))
        if h == 'bin' and t[1] == '**' and t[3][0] == 'c':
            return canon(super().sc(t))
        return super().sc(t)

    def cast(self, dt):
        """the effect of a requested element type on an element: None when it keeps every value"""
        if dt is None or (dt[0] == 'c' and dt[2] is None):
            return None
        n = None
        if dt[0] == 'c' and isinstance(dt[2], str):
            n = dt[2]
        elif dt[0] == 'ext':
            n = dt[1].split('.')[-1]
        elif dt[0] == 'call' and dt[1] == ('ext', 'numpy.dtype') and len(dt[2]) == 1:
            return self.cast(dt[2][0])
        if n is None:
            raise Unknown('element type ' + show(dt)[:40])
        n = {'i1': 'int8', 'u1': 'uint8', 'i2': 'int16', 'u2': 'uint16', 'i4': 'int32', 'u4': 'uint32', 'i8': 'int64', 'u8': 'uint64',
             'b': 'int8', 'B': 'uint8', 'h': 'int16', 'H': 'uint16', 'byte': 'int8', 'ubyte': 'uint8', 'short': 'int16',
             'ushort': 'uint16'}.get(n, n)
        if n in ('float', 'complex', 'float64', 'complex128', 'double', 'd', 'D', 'f8', 'c16', 'cdouble', 'float_', 'complex_', 'longdouble',
                 'clongdouble', 'object', 'O'):
            return None
        if n in ('int8', 'uint8', 'int16', 'uint16', 'bool', 'bool_'):
            top = dict(int8=127, uint8=255, int16=32767, uint16=65535).get(n, 1)

            def wrap(p):
                v = constval(p)
                if v is not None and v.denominator == 1 and (0 if n[0] in 'ub' else -top - 1) <= v <= top:
                    return p
                return var(('fn', n, pkey(p)))
            return wrap
        if n in ('int', 'int32', 'int64', 'intp', 'int_', 'l', 'i', 'uint32', 'uint64', 'longlong'):
            return lambda p: p if self.intval(p) else var(('fn', 'int', pkey(p)))
        raise Unknown('element type ' + n)

    def vec(self, t):
        """sequences: (length, element function)"""
        dt = None
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].startswith('numpy.') and t[3]:
            dt = dict(t[3]).get('dtype')
            if dt is not None:
                t = t[:3] + (tuple((k, v) for k, v in t[3] if k != 'dtype'),)
        elif t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('numpy.array', 'numpy.asarray') and len(t[2]) == 2:
            dt = t[2][1]
            t = t[:2] + (t[2][:1], t[3])
        elif t[0] == 'mcall' and t[2] == 'astype' and t[3]:
            dt = t[3][0]
        w = self.cast(dt)
        n, f = self.vec_(t)
        return (n, f) if w is None else (n, lambda i: w(f(i)))

    def vec_(self, t):
        h = t[0]
        if h == 'range':
            a = [self.sc(x) for x in t[1:]]
            if len(a) == 1:
                return a[0], lambda i: i
            st = a[2] if len(a) == 3 else ONEP
            k = constval(st)
            if k is None or abs(k) != 1:
                raise Unknown('range step')
            n = padd(a[1], pneg(a[0])) if k == 1 else padd(a[0], pneg(a[1]))
            return n, lambda i: padd(a[0], pmul(st, i))
        if h == 'map':
            parts, it = t[1], t[2]
            if len(parts) != 1 or parts[0][0]:
                raise Unknown('conditional sequence')
            n, f = self.vec(it)
            body = parts[0][1]

            def el(i, self=self):
                old = dict(self.env)
                v = f(i)
                self.env[('elem', it)] = v
                if it[0] == 'enum' if False else False:
                    pass
                try:
                    return self.sc(body)
                finally:
                    self.env = old
            env = dict(self.env)

            def el2(i):
                old, self.env = self.env, dict(env)
                try:
                    return el(i)
                finally:
                    self.env = old
            return n, el2
        if h == 'L' or h == 'tup':
            vals = [self.sc(x) for x in t[1:]]
            if len(vals) == 1:
                return pconst(1), lambda i: vals[0]

            def pick(i):
                v = constval(i)
                if v is None:
                    raise Unknown('element of an explicit list at a symbolic position')
                return vals[int(v)]
            return pconst(len(vals)), pick
        if h == 'call' and t[1][0] == 'ext':
            q, a, kw = t[1][1], t[2], dict(t[3])
            if q in ('builtins.list', 'builtins.tuple', 'numpy.array', 'numpy.asarray', 'numpy.asfarray') and len(a) == 1:
                return self.vec(a[0])
            if q == 'numpy.arange':
                return self.vec(('range',) + tuple(a))
            if q in ('numpy.sqrt', 'numpy.conj', 'numpy.conjugate', 'numpy.real') and len(a) == 1:
                n, f = self.vec(a[0])
                if q == 'numpy.sqrt':
                    return n, lambda i: canon(radsimp(ppow(f(i), Fraction(1, 2))))
                return n, f
            if q in ('numpy.ones', 'numpy.zeros') and len(a) >= 1:
                n = a[0][1] if a[0][0] in ('tup', 'L') and len(a[0]) == 2 else a[0]
                c = pconst(1 if q.endswith('ones') else 0)
                return self.sc(n), lambda i: c
            if q == 'numpy.linspace' and len(a) == 3 and not kw:
                lo, hi, n = (self.sc(x) for x in a)
                st = radsimp(pmul(padd(hi, pneg(lo)), ppow(padd(n, pconst(-1)), -1)))
                return n, lambda i: padd(lo, pmul(st, i))
            if q == 'builtins.reversed' or q == 'numpy.flip':
                n, f = self.vec(a[0])
                return n, lambda i: f(padd(padd(n, pconst(-1)), pneg(i)))
            if q == 'builtins.range':
                return self.vec(('range',) + tuple(a))
        if h == 'bin' and t[1] in ('+', '-', '*', '/', '**', '//'):
            va = self.tryvec(t[2])
            vb = self.tryvec(t[3])
            if va is None and vb is None:
                raise Unknown('sequence ' + show(t)[:60])
            n = (va or vb)[0]

            def el(i):
                x = va[1](i) if va else self.sc(t[2])
                y = vb[1](i) if vb else self.sc(t[3])
                a, b = ('#x',), ('#y',)
                old = dict(self.env)
                self.env[a] = x
                self.env[b] = y
                try:
                    return self.sc(('bin', t[1], a, b))
                finally:
                    self.env = old
            return n, el
        if h == 'un' and t[1] in '+-':
            n, f = self.vec(t[2])
            return n, (lambda i: pneg(f(i))) if t[1] == '-' else f
        if h in ('idx', 'sub') and t[2][0] == 'slice':
            n, f = self.vec(t[1])
            lo, hi, st = (None if x[0] == 'c' and x[2] is None else self.sc(x) for x in t[2][1:4])
            k = 1 if st is None else constval(st)
            if k == -1 and lo is None and hi is None:
                return n, lambda i: f(padd(padd(n, pconst(-1)), pneg(i)))
            if k != 1:
                raise Unknown('slice step')
            lo = pconst(0) if lo is None else lo
            hi = n if hi is None else hi
            for nm, x in (('lo', lo), ('hi', hi)):
                v = constval(x)
                if v is not None and v < 0:
                    if nm == 'lo':
                        lo = padd(n, x)
                    else:
                        hi = padd(n, x)
            return padd(hi, pneg(lo)), lambda i: f(padd(lo, i))
        if h == 'mcall' and t[2] in ('copy', 'tolist', 'conj', 'conjugate', 'astype'):
            return self.vec(t[1])
        raise Unknown('sequence ' + show(t)[:60])

    def tryvec(self, t):
        if t in self.env:
            return None
        if t[0] in ('range', 'map', 'L', 'tup', 'call', 'bin', 'un', 'idx', 'sub', 'mcall'):
            try:
                return self.vec(t)
            except Unknown:
                return None
        return None

    # ---- matrices
    def bands(self, t):
        """{offset: [(lo, hi, element(row))]}, number of rows (or None)"""
        dt = None
        if t[0] == 'call' and t[1][0] == 'ext' and t[3]:
            dt = dict(t[3]).get('dtype')
        elif t[0] == 'mcall' and t[2] == 'astype':
            dt = t[3][0] if t[3] else dict(t[4]).get('dtype')
        w = self.cast(dt)
        b, n = self.bands_(t)
        return (b, n) if w is None else ({k: [(lo, hi, w(f)) for lo, hi, f in v] for k, v in b.items()}, n)

    def bands_(self, t):
        h = t[0]
        if h == 'mcall':
            if t[2] in ('toarray', 'todense', 'tocsc', 'tocsr', 'copy', 'tocoo', 'tolil', 'astype'):
                return self.bands(t[1])
            if t[2] in ('conj', 'conjugate'):
                b, n = self.bands(t[1])
                return {k: [(lo, hi, self.conjp(f)) for lo, hi, f in v] for k, v in b.items()}, n
            if t[2] in ('transpose', 'getH') and not t[3]:
                b, n = self.transpose_b(self.bands(t[1]))
                if t[2] == 'getH':
                    b = {k: [(lo, hi, self.conjp(f)) for lo, hi, f in v] for k, v in b.items()}
                return b, n
        if h == 'attr':
            if t[2] == 'A':
                return self.bands(t[1])
            if t[2] == 'T':
                return self.transpose_b(self.bands(t[1]))
        if h == 'un' and t[1] in '+-':
            return self.scale_b(pconst(-1 if t[1] == '-' else 1), self.bands(t[2]))
        if h == 'bin':
            if t[1] in '+-':
                a = self.bands(t[2])
                b = self.bands(t[3])
                if t[1] == '-':
                    b = self.scale_b(pconst(-1), b)
                return self.add_b(a, b)
            if t[1] == '*':
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    try:
                        b = self.bands(x)
                    except Unknown:
                        continue
                    return self.scale_b(self.sc(y), b)
            if t[1] == '/':
                return self.scale_b(ppow(self.sc(t[3]), -1), self.bands(t[2]))
        if h == 'call' and t[1][0] == 'ext':
            q, a, kw = t[1][1], t[2], dict(t[3])
            nm = q.split('.')[-1]
            if nm in ('csc_matrix', 'csr_matrix', 'coo_matrix', 'csc_array', 'csr_array', 'coo_array') and a:
                if a[0][0] == 'tup' and len(a[0]) == 3 and a[0][2][0] in ('tup', 'L') and len(a[0][2]) == 3:
                    return self.triple(a[0][1], a[0][2][1], a[0][2][2], kw.get('shape', a[1] if len(a) > 1 else None))
                return self.bands(a[0])
            if q in ('scipy.sparse.identity', 'scipy.sparse.eye', 'numpy.identity', 'numpy.eye') and len(a) == 1:
                n = self.sc(a[0])
                k = constval(self.sc(kw['k'])) if 'k' in kw else 0
                return self.band_of(n, int(k), None, ONEP), n
            if q in ('numpy.diag', 'scipy.sparse.diags', 'scipy.sparse.diags_array', 'numpy.diagflat') and a:
                k = kw.get('k', kw.get('offsets', a[1] if len(a) > 1 else ('c', 'int', 0)))
                data = a[0]
                if k[0] in ('L', 'tup') and len(k) == 2 and data[0] in ('L', 'tup') and len(data) == 2:
                    k, data = k[1], data[1]
                k = constval(self.sc(k))
                if k is None:
                    raise Unknown('diagonal offset')
                k = int(k)
                n, f = self.vec(data)
                lo = pconst(max(0, -k))
                hi = padd(lo, n)
                el = f(padd(ROWP, pneg(lo)))
                size = padd(n, pconst(abs(k)))
                if 'shape' in kw and kw['shape'][0] in ('tup', 'L') and self.sc(kw['shape'][1]) != size:
                    raise Unknown('shape of diags')
                return {k: [(lo, hi, el)]}, size
            if q in ('numpy.array', 'numpy.asarray', 'numpy.matrix') and a and a[0][0] in ('L', 'tup') and \
                    all(x[0] in ('L', 'tup') for x in a[0][1:]):
                out = {}
                for r, x in enumerate(a[0][1:]):
                    for c, y in enumerate(x[1:]):
                        self.put(out, r, c, self.sc(y))
                return out, pconst(len(a[0]) - 1)
            if q in ('numpy.conj', 'numpy.conjugate'):
                return self.bands(('mcall', a[0], 'conj', (), ()))
            if q == 'numpy.transpose':
                return self.transpose_b(self.bands(a[0]))
        raise Unknown('matrix ' + show(t)[:80])

    @staticmethod
    def put(out, r, c, p):
        if p:
            out.setdefault(c - r, []).append((pconst(r), pconst(r + 1), p))

    def conjp(self, p):
        return {m: (c[0], -c[1]) for m, c in p.items()}

    def band_of(self, n, k, vec, el):
        lo = pconst(max(0, -k))
        return {k: [(lo, padd(n, pconst(-max(0, k))), el)]}

    def triple(self, data, rows, cols, shape):
        if rows[0] in ('L', 'tup') and cols[0] in ('L', 'tup') and data[0] in ('L', 'tup'):
            if not len(rows) == len(cols) == len(data):
                raise Unknown('lengths of the positions')
            out = {}
            for r, c, v in zip(rows[1:], cols[1:], data[1:]):
                r, c = constval(self.sc(r)), constval(self.sc(c))
                if r is None or c is None:
                    raise Unknown('positions')
                self.put(out, int(r), int(c), self.sc(v))
            return out, (self.sc(shape[1]) if shape is not None and shape[0] in ('tup', 'L') else None)
        nr, fr = self.vec(rows)
        nc, fc = self.vec(cols)
        nd, fd = self.vec(data)
        i = var(('#i',))
        r, c = fr(i), fc(i)
        off = constval(padd(c, pneg(r)))
        start = constval(padd(r, pneg(i)))
        if off is None or start is None:
            raise Unknown('positions are not along a diagonal')
        if not nr == nc == nd:
            if self.same_len(nr, nc, nd):
                raise Unknown('lengths of rows, columns and data')
        el = fd(padd(ROWP, pconst(-start)))
        size = self.sc(shape[1]) if shape is not None and shape[0] in ('tup', 'L') else None
        if size is not None and self.sc(shape[2]) != size:
            raise Unknown('not square')
        return {int(off): [(pconst(start), padd(pconst(start), nr), el)]}, size

    @staticmethod
    def same_len(*ps):
        return any(constval(padd(p, pneg(ps[0]))) is None for p in ps)

    def transpose_b(self, bn):
        b, n = bn
        out = {}
        for k, parts in b.items():
            # element (r, r+k) moves to row r+k
            out[-k] = [(padd(lo, pconst(k)), padd(hi, pconst(k)), psub(f, ROW, padd(ROWP, pconst(-k)))) for lo, hi, f in parts]
        return out, n

    def scale_b(self, s, bn):
        b, n = bn
        return {k: [(lo, hi, canon(radsimp(pmul(s, f)))) for lo, hi, f in parts] for k, parts in b.items()}, n

    def add_b(self, x, y):
        (a, n), (b, m) = x, y
        out = {k: list(v) for k, v in a.items()}
        for k, parts in b.items():
            cur = out.setdefault(k, [])
            for lo, hi, f in parts:
                for i, (l2, h2, g) in enumerate(cur):
                    if l2 == lo and h2 == hi:
                        cur[i] = (lo, hi, padd(f, g))
                        break
                else:
                    cur.append((lo, hi, f))
        return out, n if n is not None else m

    def normal(self, bn):
        """comparable form: {offset: sorted parts} without zero elements"""
        b, n = bn
        out = {}
        for k, parts in b.items():
            ps = []
            for lo, hi, f in parts:
                f = canon(radsimp(f))
                if constval(lo) is not None and constval(hi) is not None:
                    # explicit rows
                    for r in range(int(constval(lo)), int(constval(hi))):
                        v = psub(f, ROW, pconst(r))
                        old = next((q for q in ps if q[0] == pkey(pconst(r))), None)
                        if old:
                            ps.remove(old)
                            v = padd(v, unkey(old[2]))
                        if v:
                            ps.append((pkey(pconst(r)), pkey(pconst(r + 1)), pkey(v)))
                elif f:
                    ps.append((pkey(lo), pkey(hi), pkey(f)))
            if ps:
                out[k] = tuple(sorted(ps, key=repr))
        return out


def cleared(p):
    """p times its denominators"""
    for _ in range(12):
        worst = None
        for m in p:
            for x, e in m:
                if e < 0 and e.denominator == 1 and (worst is None or e < worst[1]):
                    worst = (x, e)
        if worst is None:
            return p
        x, e = worst
        q = ppow(unkey(x[1]) if isinstance(x, tuple) and x and x[0] == 'poly' else {((x, Fraction(1)),): (Fraction(1), Fraction(0))}, -e)
        # multiply every monomial; those with the same atom cancel exactly
        out = {}
        for m, c in p.items():
            d = dict(m)
            if x in d and d[x] <= e:
                r = d[x] - e
                d.pop(x)
                if r:
                    d[x] = r
                out = padd(out, {tuple(sorted(d.items(), key=repr)): c})
            elif x in d and d[x] < 0:
                k = -e + d[x]
                d.pop(x)
                base = unkey(x[1]) if x[0] == 'poly' else {((x, Fraction(1)),): (Fraction(1), Fraction(0))}
                out = padd(out, pmul({tuple(sorted(d.items(), key=repr)): c}, ppow(base, k)))
            else:
                out = padd(out, pmul({m: c}, q))
        p = canon(radsimp(out))
    return p


def peq(p, q):
    d = canon(radsimp(padd(p, pneg(q))))
    return not d or not cleared(d)


def same_bands(a, b):
    if a == b:
        return True
    if set(a) != set(b):
        return False
    for k in a:
        if len(a[k]) != len(b[k]):
            return False
        rest = list(b[k])
        for x in a[k]:
            y = next((y for y in rest if all(peq(unkey(u), unkey(v)) for u, v in zip(x, y))), None)
            if y is None:
                return False
            rest.remove(y)
    return True

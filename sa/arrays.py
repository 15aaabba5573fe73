"""Abstract interpretation of array code: arrays of a fixed shape whose elements are polynomials over symbolic numbers, with numpy's
aliasing (views and copies), broadcasting and element types."""
import cmath
import itertools
import math
from fractions import Fraction
from .interp import Interp, C, NONE, TRUE, FALSE, Raise, Unsupported, is_c, tup, show
from .algebra import Unknown, pconst, padd, mmul, pkey, unkey, pneg, ppow, radsimp, cmul, cadd, leading_negative
from .banded import var

ORD = 'bifc'
ZERO = (Fraction(0), Fraction(0))
PI = ('PI',)
PIS = {'numpy.pi', 'math.pi', 'scipy.pi', 'scipy.constants.pi', 'cmath.pi'}


def top(*ds):
    return max(ds, key=ORD.index)


def fmul(p, q):
    """product with exponentials merged, roots simplified"""
    out = {}
    again = False
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = cmul(c, d)
            s = cadd(out.get(k, ZERO), v)
            if s == ZERO:
                out.pop(k, None)
            else:
                out[k] = s
    for m in out:
        ne = 0
        for x, e in m:
            if x[0] == 'rad' and e >= 2 or x[0] == 'poly' and e >= 1 or x[0] == 'fn' and x[1] == 'abs' and abs(e) >= 2:
                again = True
            if x[0] == 'fn' and x[1] == 'exp':
                ne += 1 if e == 1 else 2
        if ne > 1:
            again = True
    return tidy(out) if again else out


def primes(n):
    out, f = [], 2
    while n > 1:
        if f * f > n:
            f = n
        while n % f == 0:
            out.append(f)
            n //= f
        f += 1
    return out


def tidy(p):
    out = {}
    for m, c in p.items():
        rest, arg, roots, rads = [], {}, [], {}
        for x, e in m:
            if x[0] == 'fn' and x[1] == 'exp':
                arg = padd(arg, {k: cmul(v, (Fraction(e), Fraction(0))) for k, v in unkey(x[2]).items()})
            elif x[0] == 'fn' and x[1] == 'abs' and abs(e) >= 2 and reals(x):
                k = int(e / 2) * 2
                roots.append(ppow(unkey(x[2]), k))
                if e - k:
                    rest.append((x, e - k))
            elif x[0] == 'poly' and e >= 1:
                roots.extend([unkey(x[1])] * int(e))
                if e - int(e):
                    rest.append((x, e - int(e)))
            elif x[0] == 'rad':
                for f in primes(x[1]):
                    rads[f] = rads.get(f, 0) + e
            else:
                rest.append((x, e))
        for f, e in rads.items():
            k = e // 2
            c = cmul(c, (Fraction(f) ** int(k), Fraction(0)))
            if e - 2 * k:
                rest.append((('rad', f), e - 2 * k))
        if arg:
            rest.append((('fn', 'exp', pkey(arg)), Fraction(1)))
        r = {tuple(sorted(rest, key=repr)): c}
        for b in roots:
            r = fmul(r, b)
        out = padd(out, r)
    return out


def reals(x):
    """is the atom a real number?"""
    if x[0] == 'fn':
        return all(c[1] == 0 and all(reals(y) for y, _ in m) for m, c in unkey(x[2]).items())
    if x[0] == 'poly':
        return all(c[1] == 0 and all(reals(y) for y, _ in m) for m, c in unkey(x[1]).items())
    return True


def conj(p):
    out = {}
    for m, c in p.items():
        mm = []
        for x, e in m:
            if not reals(x):
                if x[0] != 'fn':
                    raise Unknown('conjugate of a root')
                x = ('fn', x[1], pkey(conj(unkey(x[2]))))
            mm.append((x, e))
        out = padd(out, {tuple(sorted(mm, key=repr)): (c[0], -c[1])})
    return out


def real(p):
    return fmul(padd(p, conj(p)), pconst(Fraction(1, 2)))


def imag(p):
    return fmul(padd(p, pneg(conj(p))), {(): (Fraction(0), Fraction(-1, 2))})


def const(p):
    """value of a constant polynomial or None"""
    if not p:
        return ZERO
    if set(p) == {()}:
        return p[()]
    return None


def power(p, e):
    if e.denominator == 1 and e > 0:
        r = pconst(1)
        for _ in range(int(e)):
            r = fmul(r, p)
        return r
    return tidy(radsimp(ppow(p, e)))


def mag(p):
    c = const(p)
    if c is not None and c[1] == 0:
        return pconst(abs(c[0]))
    return power(fmul(p, conj(p)), Fraction(1, 2))


def func(n, p):
    if n in ('exp', 'cos', 'cosh') and not p:
        return pconst(1)
    if not p:
        return {}
    s = 1
    if n in ('cos', 'cosh', 'sin', 'sinh', 'tan') and leading_negative(p):
        p = pneg(p)
        s = -1 if n in ('sin', 'sinh', 'tan') else 1
    return {((('fn', n, pkey(p)), Fraction(1)),): (Fraction(s), Fraction(0))}


def value(p, env):
    """number of a polynomial, env: atom -> number"""
    r = 0j
    for m, c in (p.items() if isinstance(p, dict) else p):
        t = complex(c[0], c[1])
        for x, e in m:
            t *= number(x, env) ** (int(e) if e.denominator == 1 else float(e))
        r += t
    return r


def number(x, env):
    if x[0] == 'rad':
        return math.sqrt(x[1])
    if x == PI:
        return math.pi
    if x[0] == 'fn':
        v = value(x[2], env)
        return abs(v) if x[1] == 'abs' else getattr(cmath, x[1])(v)
    if x[0] == 'poly':
        return value(x[1], env)
    v = env(x)
    if v is None:
        raise Unknown('value of ' + repr(x)[:60])
    return v


def diff(p, atom):
    """derivative by an atom"""
    out = {}
    for m, c in p.items():
        for i, (x, e) in enumerate(m):
            d = None
            if x == atom:
                d = pconst(1)
            elif x[0] == 'fn' and x[1] in ('exp', 'cos', 'sin'):
                a = unkey(x[2])
                da = diff(a, atom)
                if da:
                    d = fmul(da, {'exp': func('exp', a), 'cos': pneg(func('sin', a)), 'sin': func('cos', a)}[x[1]])
            elif x[0] == 'poly':
                d = diff(unkey(x[1]), atom)
            elif x[0] == 'fn' and diff(unkey(x[2]), atom):
                raise Unknown('derivative of ' + x[1])
            if d:
                rest = {m[:i] + (((x, e - 1),) if e != 1 else ()) + m[i + 1:]: cmul(c, (Fraction(e), Fraction(0)))}
                out = padd(out, fmul(rest, d))
    return tidy(out)


def size(shape):
    return math.prod(shape)


def strides(shape):
    r, n = [], 1
    for s in reversed(shape):
        r.append(n)
        n *= s
    return tuple(reversed(r))


def positions(shape):
    return itertools.product(*[range(s) for s in shape])


def broadcast(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = {s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0} - {1}
        if len(d) > 1:
            return None
        out.append(d.pop() if d else 1)
    return tuple(out)


def spread(shape, items, to):
    """items of an array of a shape, broadcast to another shape"""
    st = strides(shape)
    off = len(to) - len(shape)
    return [items[sum(0 if shape[k] == 1 else pos[off + k] * st[k] for k in range(len(shape)))] for pos in positions(to)]


ELEM = {'exp': 'exp', 'cos': 'cos', 'sin': 'sin', 'cosh': 'cosh', 'sinh': 'sinh', 'tan': 'tan'}
BIN = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'power': '**', 'float_power': '**', 'matmul': '@'}
DT = {'float': 'f', 'complex': 'c', 'int': 'i', 'float64': 'f', 'complex128': 'c', 'cdouble': 'c', 'double': 'f', 'int64': 'i', 'bool': 'b',
      'complex64': 'c', 'float32': 'f', 'complex_': 'c', 'float_': 'f'}


class ArrayInterp(Interp):
    """elements are polynomials: ('P', key, kind) for a number, ('nd', buffer, shape, places, kind, format) for an array"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.bufs = 0
        self.eigs = {}
        self.unroll = 80
        self.implicit_try = False

    # ------------------------------------------------------------------ numbers
    def num(self, v):
        """(polynomial, kind) of a number, or None"""
        if v[0] == 'P':
            return unkey(v[1]), v[2]
        if is_c(v) and isinstance(v[2], (bool, int, float, complex)):
            return pconst(v[2]), {bool: 'b', int: 'i', float: 'f', complex: 'c'}[type(v[2])]
        if v[0] == 'ext' and v[1] in PIS:
            return var(PI), 'f'
        if v[0] == 'nd' and v[2] == ():
            return None
        if v[0] == 'sym':
            return var(v), 'f'
        return None

    @staticmethod
    def mk(p, d):
        c = const(p)
        if d in 'bi' and c is not None and c[1] == 0 and c[0].denominator == 1:
            return C(int(c[0]))
        return ('P', pkey(p), d)

    # ------------------------------------------------------------------ arrays
    def new(self, st, shape, items, d, fmt='a'):
        self.bufs += 1
        b = ('buf', self.bufs)
        st.store[(b, '#a')] = tuple(pkey(x) for x in items)
        assert len(items) == size(shape)
        return ('nd', b, tuple(shape), tuple(range(len(items))), d, fmt)

    def items(self, st, a):
        buf = st.store[(a[1], '#a')]
        return [unkey(buf[i]) for i in a[3]]

    def out(self, st, shape, items, d, fmt='a'):
        if shape == () and fmt == 'a':
            return self.mk(items[0], d)
        return self.new(st, shape, items, d, fmt)

    def write(self, st, a, items):
        buf = list(st.store[(a[1], '#a')])
        for i, p in zip(a[3], items):
            buf[i] = pkey(p)
        st.store[(a[1], '#a')] = tuple(buf)

    def arr(self, st, v):
        """(shape, items, kind, format) of a number, an array or a nested list, or None"""
        if v[0] == 'nd':
            return v[2], self.items(st, v), v[4], v[5]
        n = self.num(v)
        if n is not None:
            return (), [n[0]], n[1], 'a'
        its = self.known_items(v, st) if v[0] != 'c' else None
        if its is None and v[0] == 'P':
            return None
        if its is None:
            return None
        parts = [self.arr(st, x) for x in its]
        if any(x is None for x in parts) or not parts or len({x[0] for x in parts}) != 1:
            return None
        return (len(parts),) + parts[0][0], [y for x in parts for y in x[1]], top(*[x[2] for x in parts]), 'a'

    def elementwise(self, st, f, *vs, d=None, fmt=None):
        xs = [self.arr(st, v) for v in vs]
        if any(x is None for x in xs):
            return None
        sh = broadcast(*[x[0] for x in xs])
        if sh is None:
            return [(st, Raise('ValueError', self.line))]
        cols = [spread(x[0], x[1], sh) for x in xs]
        res = [f(*c) for c in zip(*cols)]
        s = st.copy()
        fm = fmt or ('s' if any(x[3] == 's' for x in xs) else 'a')
        return [(s, self.out(s, sh, res, d or top(*[x[2] for x in xs]), fm))]

    def matmul(self, st, a, b):
        x, y = self.arr(st, a), self.arr(st, b)
        if x is None or y is None or not x[0] or not y[0] or len(x[0]) > 2 or len(y[0]) > 2:
            return None
        (s1, i1), (s2, i2) = x[:2], y[:2]
        r1 = (1,) + s1 if len(s1) == 1 else s1
        r2 = s2 + (1,) if len(s2) == 1 else s2
        if r1[1] != r2[0]:
            return [(st, Raise('ValueError', self.line))]
        res = []
        for i in range(r1[0]):
            for j in range(r2[1]):
                t = {}
                for k in range(r1[1]):
                    t = padd(t, fmul(i1[i * r1[1] + k], i2[k * r2[1] + j]))
                res.append(t)
        sh = ((r1[0],) if len(s1) == 2 else ()) + ((r2[1],) if len(s2) == 2 else ())
        s = st.copy()
        return [(s, self.out(s, sh, res, top(x[2], y[2]), 's' if x[3] == 's' and y[3] == 's' else 'a'))]

    def isnum(self, v):
        return v[0] in ('nd', 'P')

    def binop(self, op, a, b, st, line=0):
        self.line = line or self.line
        if not (is_c(a) and is_c(b)) and (self.num(a) is not None or a[0] == 'nd') and \
                (b[0] == 'nd' or self.num(b) is not None or (a[0] == 'nd' and self.arr(st, b) is not None)) or \
                b[0] == 'nd' and self.arr(st, a) is not None:
            r = self.arith(op, a, b, st)
            if r is None:
                raise Unsupported('array operator ' + op)
            return r
        if is_c(a) and is_c(b) and op == '**' and isinstance(a[2], int) and isinstance(b[2], float) and a[2] > 0:
            return self.arith(op, a, b, st)
        if self.isnum(a) or self.isnum(b):
            if self.kind_of(a) == 'list' or self.kind_of(b) == 'list':
                return super().binop(op, a, b, st, line)
            raise Unsupported(f'operator {op} on {a[0]} and {b[0]}')
        return super().binop(op, a, b, st, line)

    def arith(self, op, a, b, st):
        fa, fb = (x[5] if x[0] == 'nd' else None for x in (a, b))
        if op == '@' or op == '*' and 's' in (fa, fb) and None not in (fa, fb):
            return self.matmul(st, a, b)
        if op == '+':
            return self.elementwise(st, padd, a, b)
        if op == '-':
            return self.elementwise(st, lambda x, y: padd(x, pneg(y)), a, b)
        if op == '*':
            return self.elementwise(st, fmul, a, b)
        xa, xb = self.arr(st, a), self.arr(st, b)
        if op == '/':
            if any(not y for y in xb[1]):
                raise Unsupported('division by zero')
            return self.elementwise(st, lambda x, y: fmul(x, power(y, Fraction(-1))), a, b, d=top('f', xa[2], xb[2]))
        if op == '**':
            es = [const(y) for y in xb[1]]
            if any(e is None or e[1] for e in es):
                raise Unsupported('symbolic exponent')
            if xa[2] in 'bi' and xb[2] in 'bi' and any(e[0] < 0 for e in es) and a[0] == 'nd':
                return [(st, Raise('ValueError', self.line))]
            d = xa[2] if xb[2] in 'bi' and all(e[0] >= 0 for e in es) else top('f', xa[2])
            return self.elementwise(st, lambda x, y: power(x, const(y)[0]), a, b, d=d)
        if op in ('//', '%') and all(const(x) is not None and not const(x)[1] for x in xa[1] + xb[1]) and all(xb[1]):
            def div(x, y):
                u, v = const(x)[0], const(y)[0]
                return pconst(u // v if op == '//' else u % v)
            return self.elementwise(st, div, a, b)
        raise Unsupported('array operator ' + op)

    def e_UnaryOp(self, e, st, fr):
        import ast
        if isinstance(e.op, (ast.USub, ast.UAdd)):
            def k(s, v):
                if v[0] == 'nd' or not is_c(v) and self.num(v) is not None:
                    return self.elementwise(s, pneg if isinstance(e.op, ast.USub) else dict, v)
                if is_c(v):
                    try:
                        return [(s, C(-v[2] if isinstance(e.op, ast.USub) else +v[2]))]
                    except TypeError:
                        pass
                return [(s, ('un', '-' if isinstance(e.op, ast.USub) else '+', self.freeze(s, v)))]
            return self.bind(self.eval(e.operand, st, fr), k)
        return super().e_UnaryOp(e, st, fr)

    def s_AugAssign(self, s, st, fr):
        import ast
        load = ast.copy_location(type(s.target)(**{k: getattr(s.target, k) for k in s.target._fields}), s.target)
        load.ctx = ast.Load()
        from .interp import BINOPS
        op = BINOPS[type(s.op)]
        res = []
        for s2, cur in self.eval(load, st, fr):
            if isinstance(cur, Raise) or cur[0] != 'nd' or cur[5] == 's':
                return super().s_AugAssign(s, st, fr)
            for s3, v in self.eval(s.value, s2, fr):
                outs = [(s3, v)] if isinstance(v, Raise) else self.binop(op, cur, v, s3, s.lineno)
                for s4, r in outs:
                    if isinstance(r, Raise):
                        res.append((s4, r))
                        continue
                    sh, its, d, _ = self.arr(s4, r)
                    if ORD.index(d) > ORD.index(cur[4]):
                        res.append((s4, Raise('UFuncTypeError', s.lineno)))
                        continue
                    if sh != cur[2]:
                        res.append((s4, Raise('ValueError', s.lineno)))
                        continue
                    s5 = s4.copy()
                    self.write(s5, cur, its)
                    res.extend(self.tosig(self.assign(s.target, cur, s5, fr), lambda x: None))
        return res

    # ------------------------------------------------------------------ indexing
    def select(self, st, shape, i):
        """(new shape, places, is a view) of an index, or Raise"""
        parts = list(i[1:]) if i[0] == 'tup' else [i]
        parts = [self.new_from(st, p) for p in parts]
        nax = sum(1 for p in parts if not (p == NONE or is_c(p) and p[2] is Ellipsis))
        if nax > len(shape):
            return Raise('IndexError', self.line)
        if any(is_c(p) and p[2] is Ellipsis for p in parts):
            k = next(n for n, p in enumerate(parts) if is_c(p) and p[2] is Ellipsis)
            parts[k:k + 1] = [('slice', NONE, NONE, NONE)] * (len(shape) - nax)
        else:
            parts += [('slice', NONE, NONE, NONE)] * (len(shape) - nax)
        sd = strides(shape)
        adv = [n for n, p in enumerate(parts) if p[0] == 'nd']
        ax = 0
        dims = []          # per part: ('new',) | ('fix', offset) | ('sl', [offsets]) | ('adv', shape, [offsets])
        for p in parts:
            if p == NONE:
                dims.append(('new',))
                continue
            n, s = shape[ax], sd[ax]
            ax += 1
            if is_c(p) and isinstance(p[2], int) and not isinstance(p[2], bool):
                if not -n <= p[2] < n:
                    return Raise('IndexError', self.line)
                dims.append(('fix', p[2] % n * s))
            elif p[0] == 'slice':
                if not all(is_c(x) for x in p[1:]):
                    raise Unsupported('slice')
                dims.append(('sl', [k * s for k in range(n)[slice(*[x[2] for x in p[1:]])]]))
            elif p[0] == 'nd' and p[4] == 'i':
                ks = [const(x) for x in self.items(st, p)]
                if any(k is None for k in ks):
                    raise Unsupported('symbolic index')
                ks = [int(k[0]) for k in ks]
                if any(not -n <= k < n for k in ks):
                    return Raise('IndexError', self.line)
                dims.append(('adv', p[2], [k % n * s for k in ks]))
            elif p[0] == 'nd' and p[4] == 'f':
                return Raise('IndexError', self.line)
            elif p[0] == 'P' and p[2] in 'fc':
                return Raise('IndexError', self.line)
            else:
                raise Unsupported('index')
        if not adv:
            sh, places = (), [0]
            for d in dims:
                if d[0] == 'new':
                    sh += (1,)
                elif d[0] == 'fix':
                    places = [p + d[1] for p in places]
                else:
                    sh += (len(d[1]),)
                    places = [p + o for p in places for o in d[1]]
            return sh, places, True
        ash = broadcast(*[d[1] for d in dims if d[0] == 'adv'])
        if ash is None:
            return Raise('IndexError', self.line)
        offs = [0] * size(ash)
        for d in dims:
            if d[0] == 'adv':
                offs = [x + y for x, y in zip(offs, spread(d[1], d[2], ash))]
            elif d[0] == 'fix':
                offs = [x + d[1] for x in offs]
        group = [n for n, d in enumerate(dims) if d[0] in ('adv', 'fix')]
        together = group == list(range(group[0], group[-1] + 1))
        at = group[0] if together else 0
        sh, places, done = (), [0], False
        seq = [(n, d) for n, d in enumerate(dims) if d[0] in ('sl', 'new')]
        order = [d for n, d in seq if n < at] + ['A'] + [d for n, d in seq if n >= at]
        for d in order:
            if d == 'A':
                sh += ash
                places = [p + o for p in places for o in offs]
            elif d[0] == 'new':
                sh += (1,)
            else:
                sh += (len(d[1]),)
                places = [p + o for p in places for o in d[1]]
        return sh, places, False

    def new_from(self, st, p):
        if p[0] == 'nd':
            if p[2] == ():
                return self.mk(self.items(st, p)[0], p[4])
            return p
        if self.kind_of(p) == 'list' or p[0] == 'range':
            a = self.arr(st, p)
            if a is None:
                raise Unsupported('index list')
            return self.new(st, a[0], a[1], a[2])
        return p

    def getitem(self, v, i, st, line=0):
        self.line = line or self.line
        if v[0] == 'nd':
            s = st.copy()
            r = self.select(s, v[2], i)
            if isinstance(r, Raise):
                return [(st, r)]
            sh, places, view = r
            pl = tuple(v[3][p] for p in places)
            if sh == () and v[5] == 'a':
                return [(st, self.mk(unkey(st.store[(v[1], '#a')][pl[0]]), v[4]))]
            if v[5] == 's':
                if sh == ():
                    return [(st, self.mk(unkey(st.store[(v[1], '#a')][pl[0]]), v[4]))]
                if len(sh) == 1:
                    raise Unsupported('row of a sparse matrix')
                view = False
            if view:
                return [(s, ('nd', v[1], sh, pl, v[4], v[5]))]
            its = st.store[(v[1], '#a')]
            return [(s, self.new(s, sh, [unkey(its[p]) for p in pl], v[4], v[5]))]
        if v[0] == 'P':
            return [(st, Raise('TypeError', line))]
        return super().getitem(v, i, st, line)

    def setitem(self, v, i, val, st, line=0):
        self.line = line or self.line
        if v[0] == 'nd':
            s = st.copy()
            r = self.select(s, v[2], i)
            if isinstance(r, Raise):
                return [(st, r)]
            sh, places, _ = r
            x = self.arr(s, val)
            if x is None:
                raise Unsupported('assigned value')
            b = broadcast(x[0], sh)
            xs, xi = x[0], x[1]
            while len(xs) > len(sh) and xs[0] == 1:
                xs = xs[1:]
            if broadcast(xs, sh) != sh:
                return [(st, Raise('ValueError', line))]
            its = spread(xs, xi, sh)
            if x[2] == 'c' and v[4] in 'if':
                if x[0] == ():
                    return [(st, Raise('TypeError', line))]
                its = [real(p) for p in its]
            if v[4] == 'i' and x[2] in 'fc':
                raise Unsupported('numbers cut to integers')
            self.write(s, ('nd', v[1], sh, tuple(v[3][p] for p in places), v[4], v[5]), its)
            return [(s, NONE)]
        return super().setitem(v, i, val, st, line)

    def known_items(self, v, st):
        if v[0] == 'nd' and v[2]:
            n, k = v[2][0], size(v[2][1:])
            if v[2][1:] == ():
                its = self.items(st, v)
                return [self.mk(p, v[4]) for p in its]
            return [('nd', v[1], v[2][1:], v[3][r * k:(r + 1) * k], v[4], v[5]) for r in range(n)]
        return super().known_items(v, st)

    # ------------------------------------------------------------------ decisions
    def static_kinds(self, st, t):
        if t[0] in ('nd', 'P', 'ndm', 'sym'):
            return frozenset('o')
        return super().static_kinds(st, t)

    def truth(self, v, st):
        if v[0] == 'nd' and size(v[2]) == 1:
            v = self.mk(self.items(st, v)[0], v[4])
        if v[0] == 'P':
            c = const(unkey(v[1]))
            if c is not None:
                return [(st, c != ZERO)]
            return [(st, True)]
        if v[0] == 'nd':
            return [(st, Raise('ValueError', self.line))] if False else super().truth(v, st)
        return super().truth(v, st)

    def truth_cmp(self, op, a, b, st):
        x, y = (self.num(v) if self.isnum(v) or is_c(v) else None for v in (a, b))
        if x is not None and y is not None and (self.isnum(a) or self.isnum(b)):
            c = const(padd(x[0], pneg(y[0])))
            if c is not None and c[1] == 0:
                d = c[0]
                r = {'==': d == 0, '!=': d != 0, '<': d < 0, '>': d > 0, '<=': d <= 0, '>=': d >= 0}.get(op)
                if r is not None:
                    return [(st, r)]
            if op == '==':
                return [(st, False)]
            if op == '!=':
                return [(st, True)]
        for u, w in ((a, b), (b, a)):
            if self.isnum(u) and w == NONE and op in ('is', 'is not', '==', '!='):
                return [(st, op in ('is not', '!='))]
        return super().truth_cmp(op, a, b, st)

    def decide_isinst(self, x, types, st):
        names = {t[1].split('.')[-1] for t in types if t[0] == 'ext'}
        if x[0] == 'nd':
            return bool(names & ({'ndarray', 'Iterable', 'Collection', 'Sized', 'Sequence'} - {'Sequence'} if x[5] == 'a' else
                                 {'spmatrix', 'csc_matrix', 'csr_matrix', 'sparray'}))
        if x[0] == 'P':
            if x[2] in 'fc' and not names & {'float', 'complex', 'Number', 'int', 'floating', 'complexfloating'}:
                return False
            return bool(names & {'i': {'int', 'integer', 'Number'}, 'f': {'float', 'floating', 'Number'}, 'c': {'complex', 'Number'}}.get(x[2], set()))
        if x[0] == 'sym':
            return bool(names & {'float', 'Number'})
        return super().decide_isinst(x, types, st)

    # ------------------------------------------------------------------ attributes and methods
    def getattr(self, v, name, st, line=0, default=None):
        if v[0] == 'nd':
            sh = v[2]
            if name == 'shape':
                return [(st, tup(*[C(n) for n in sh]))]
            if name == 'size':
                return [(st, C(size(sh)))]
            if name == 'ndim':
                return [(st, C(len(sh)))]
            if name == 'T':
                return [(st, self.transposed(v))]
            if name == 'A' and v[5] == 's':
                return [self.toarray(st, v)]
            if name == 'real':
                return self.elementwise(st, real, v, d='f' if v[4] == 'c' else v[4], fmt=v[5])
            if name == 'imag':
                return self.elementwise(st, imag, v, d='f' if v[4] == 'c' else v[4], fmt=v[5])
            if name == 'dtype':
                return [(st, self.ext({'i': 'numpy.int64', 'f': 'numpy.float64', 'c': 'numpy.complex128', 'b': 'numpy.bool_'}[v[4]]))]
            if name == 'flat':
                return [(st, ('nd', v[1], (size(sh),), v[3], v[4], v[5]))]
            return [(st, ('ndm', name, v))]
        if v[0] == 'P':
            if name == 'real':
                return self.elementwise(st, real, v, d='f')
            if name == 'imag':
                return self.elementwise(st, imag, v, d='f')
            return [(st, ('ndm', name, v))]
        return super().getattr(v, name, st, line, default)

    @staticmethod
    def transposed(v):
        sh = v[2]
        sd = strides(sh)
        rs = tuple(reversed(sh))
        return ('nd', v[1], rs, tuple(v[3][sum(p * s for p, s in zip(reversed(pos), sd))] for pos in positions(rs)), v[4], v[5])

    def toarray(self, st, v):
        s = st.copy()
        return s, self.new(s, v[2], self.items(st, v), v[4], 'a')

    def call(self, f, args, kwargs, st, line=0):
        if f[0] == 'ndm':
            self.line = line or self.line
            r = self.method(f[1], f[2], args, dict(kwargs), st)
            if r is None:
                raise Unsupported('array method ' + f[1])
            return r
        return super().call(f, args, kwargs, st, line)

    def method(self, name, v, args, kw, st):
        if v[0] == 'P':
            if name in ('conj', 'conjugate'):
                return self.elementwise(st, conj, v)
            if name in ('item', 'copy'):
                return [(st, v)]
            return None
        if name in ('toarray', 'todense'):
            return [self.toarray(st, v)] if v[5] == 's' else [(st, Raise('AttributeError', self.line))]
        if name in ('flatten', 'ravel', 'item', 'fill', 'tolist') and v[5] == 's':
            return [(st, Raise('AttributeError', self.line))]
        if name in ('flatten', 'ravel') and not args and not kw and v[5] == 'a':
            s = st.copy()
            if name == 'ravel' and v[3] == tuple(range(v[3][0], v[3][0] + len(v[3]))):
                return [(st, ('nd', v[1], (size(v[2]),), v[3], v[4], v[5]))]
            return [(s, self.new(s, (size(v[2]),), self.items(st, v), v[4]))]
        if name == 'copy':
            s = st.copy()
            return [(s, self.new(s, v[2], self.items(st, v), v[4], v[5]))]
        if name in ('conj', 'conjugate'):
            return self.elementwise(st, conj, v, fmt=v[5])
        if name in ('getH',):
            return self.elementwise(st, conj, self.transposed(v), fmt=v[5])
        if name == 'transpose' and not args:
            return [(st, self.transposed(v))]
        if name == 'reshape' and v[5] == 'a':
            dims = args if len(args) != 1 or args[0][0] != 'tup' else args[0][1:]
            if all(is_c(x) and isinstance(x[2], int) for x in dims) and not kw:
                sh = [x[2] for x in dims]
                if -1 in sh:
                    sh[sh.index(-1)] = size(v[2]) // max(1, size([x for x in sh if x != -1]))
                if size(sh) == size(v[2]):
                    return [(st, ('nd', v[1], tuple(sh), v[3], v[4], v[5]))]
                return [(st, Raise('ValueError', self.line))]
            return None
        if name in ('tocsc', 'tocsr', 'tolil', 'tocoo', 'todok') and v[5] == 's':
            s = st.copy()
            return [(s, self.new(s, v[2], self.items(st, v), v[4], 's'))]
        if name == 'astype' and args and args[0][0] == 'ext':
            d = DT.get(args[0][1].split('.')[-1])
            if d in ('c', 'f') and ORD.index(d) >= ORD.index(v[4]):
                s = st.copy()
                return [(s, self.new(s, v[2], self.items(st, v), d, v[5]))]
            return None
        if name == 'fill' and len(args) == 1:
            n = self.num(args[0])
            if n is None:
                return None
            s = st.copy()
            self.write(s, v, [n[0]] * len(v[3]))
            return [(s, NONE)]
        if name == 'dot' and len(args) == 1:
            return self.matmul(st, v, args[0])
        if name in ('sum', 'prod', 'diagonal', 'trace', 'mean'):
            return self.np(name, (v,) + tuple(args), kw, st)
        if name == 'tolist' and len(v[2]) == 1:
            s = st.copy()
            return [(s, self.new_list(s, ('L',) + tuple(self.known_items(v, s))))]
        if name == 'item' and not args and size(v[2]) == 1:
            return [(st, self.mk(self.items(st, v)[0], v[4]))]
        return None

    # ------------------------------------------------------------------ functions
    def call_ext(self, q, args, kwargs, st, line=0):
        self.line = line or self.line
        n = q.split('.')[-1]
        kw = dict(kwargs)
        root = q.split('.')[0]
        if q in ('warnings.warn',):
            return [(st, NONE)]
        try:
            if root in ('numpy', 'math', 'cmath') or q.startswith('scipy.') or q in ('builtins.abs', 'builtins.sum', 'builtins.len', 'builtins.complex', 'builtins.float', 'builtins.pow', 'copy.copy', 'copy.deepcopy'):
                r = self.np(n, tuple(args), kw, st, q)
                if r is not None:
                    return r
        except Unknown as e:
            raise Unsupported(str(e))
        if any(a[0] in ('nd', 'P') for a in args) and root in ('numpy', 'scipy', 'math', 'cmath'):
            raise Unsupported('call of ' + q)
        return super().call_ext(q, args, kwargs, st, line)

    def dtype(self, kw, args, k, default):
        v = kw.pop('dtype', args[k] if len(args) > k else None)
        if v is None:
            return default
        d = DT.get(v[1].split('.')[-1]) if v[0] == 'ext' else DT.get(v[2]) if is_c(v) and isinstance(v[2], str) else None
        if d is None:
            raise Unsupported('dtype')
        return d

    def dims(self, v):
        if is_c(v) and isinstance(v[2], int):
            return (v[2],)
        if v[0] == 'tup' and all(is_c(x) and isinstance(x[2], int) for x in v[1:]):
            return tuple(x[2] for x in v[1:])
        return None

    def np(self, n, a, kw, st, q='numpy.'):
        kw = dict(kw)
        if n in ELEM and len(a) == 1 and not kw:
            x = self.arr(st, a[0])
            return self.elementwise(st, lambda p: func(ELEM[n], p), a[0], d=top('f', x[2])) if x else None
        if n == 'sqrt' and len(a) == 1 and not kw:
            x = self.arr(st, a[0])
            return self.elementwise(st, lambda p: power(p, Fraction(1, 2)), a[0], d=top('f', x[2])) if x else None
        if n in ('square',) and len(a) == 1 and not kw:
            return self.elementwise(st, lambda p: fmul(p, p), a[0])
        if n in ('abs', 'absolute', 'fabs') and len(a) == 1 and not kw:
            x = self.arr(st, a[0])
            return self.elementwise(st, mag, a[0], d='f' if x[2] == 'c' else x[2]) if x and (self.isnum(a[0]) or q != 'builtins.abs') else None
        if n in ('conj', 'conjugate', 'real', 'imag', 'negative') and len(a) == 1 and not kw:
            f = {'conj': conj, 'conjugate': conj, 'real': real, 'imag': imag, 'negative': pneg}[n]
            x = self.arr(st, a[0])
            if x is None:
                return None
            return self.elementwise(st, f, a[0], d='f' if n in ('real', 'imag') and x[2] == 'c' else x[2])
        if n in BIN and len(a) == 2 and not kw and q.startswith('numpy.'):
            return self.binop(BIN[n], a[0], a[1], st)
        if n == 'dot' and len(a) == 2 and not kw:
            x, y = self.arr(st, a[0]), self.arr(st, a[1])
            if x and y:
                return self.matmul(st, a[0], a[1]) if x[0] and y[0] else self.elementwise(st, fmul, a[0], a[1])
        if n in ('zeros', 'ones', 'empty') and a and q.startswith('numpy.'):
            sh = self.dims(a[0])
            if sh is None:
                return None
            d = self.dtype(kw, a, 1, 'f')
            s = st.copy()
            return [(s, self.new(s, sh, [pconst(1 if n == 'ones' else 0)] * size(sh), d))] if n != 'empty' else None
        if n in ('zeros_like', 'ones_like') and a:
            x = self.arr(st, a[0])
            if x is None:
                return None
            d = self.dtype(kw, a, 1, x[2])
            s = st.copy()
            return [(s, self.new(s, x[0], [pconst(1 if n == 'ones_like' else 0)] * size(x[0]), d))]
        if n in ('eye', 'identity') and a and q.startswith('numpy.') and is_c(a[0]):
            k = a[0][2]
            d = self.dtype(kw, a, 3 if n == 'eye' else 1, 'f')
            s = st.copy()
            return [(s, self.new(s, (k, k), [pconst(int(i == j)) for i in range(k) for j in range(k)], d))] if not kw else None
        if n in ('array', 'asarray', 'copy', 'asanyarray', 'ascontiguousarray', 'deepcopy') and a and (q.startswith('numpy.') or a[0][0] == 'nd'):
            x = self.arr(st, a[0])
            if x is None or a[0][0] == 'nd' and a[0][5] == 's' and q.startswith('numpy.'):
                return None
            d = self.dtype(kw, a, 1, x[2]) if n in ('array', 'asarray') else x[2]
            if kw:
                return None
            if n in ('asarray', 'asanyarray') and a[0][0] == 'nd' and d == x[2]:
                return [(st, a[0])]
            s = st.copy()
            if ORD.index(d) < ORD.index(x[2]):
                raise Unsupported('numbers cut')
            return [(s, self.new(s, x[0], x[1], d, x[3]))]
        if n == 'arange' and a and all(is_c(x) and isinstance(x[2], int) for x in a):
            r = list(range(*[x[2] for x in a]))
            d = self.dtype(kw, (), 0, 'i')
            s = st.copy()
            return [(s, self.new(s, (len(r),), [pconst(k) for k in r], d))]
        if n == 'meshgrid' and len(a) == 2:
            x, y = self.arr(st, a[0]), self.arr(st, a[1])
            ix = kw.get('indexing', C('xy'))
            if set(kw) - {'indexing'} or x is None or y is None or not is_c(ix) or len(x[0]) != 1 or len(y[0]) != 1:
                return None
            s = st.copy()
            if ix[2] == 'xy':
                sh = (y[0][0], x[0][0])
                X = [p for _ in y[1] for p in x[1]]
                Y = [p for p in y[1] for _ in x[1]]
            else:
                sh = (x[0][0], y[0][0])
                X = [p for p in x[1] for _ in y[1]]
                Y = [p for _ in x[1] for p in y[1]]
            u, w = self.new(s, sh, X, x[2]), self.new(s, sh, Y, y[2])
            return [(s, self.new_list(s, ('L', u, w)))]
        if n in ('shape', 'size', 'ndim') and len(a) == 1 and not kw:
            x = self.arr(st, a[0])
            if x is None:
                return None
            return [(st, tup(*[C(k) for k in x[0]]) if n == 'shape' else C(size(x[0]) if n == 'size' else len(x[0])))]
        if n == 'len' and a[0][0] == 'nd':
            return [(st, C(a[0][2][0]))]
        if n == 'polyval' and len(a) == 2 and not kw:
            p, x = self.arr(st, a[0]), self.arr(st, a[1])
            if p is None or x is None or not p[0]:
                return None
            s = st.copy()
            rows = self.known_items(a[0] if a[0][0] == 'nd' else self.new(s, *p[:3]), s)
            y = self.out(s, x[0], [{}] * size(x[0]), x[2])
            for r in rows:
                for op, w in (('*', a[1]), ('+', r)):
                    (s, y), = self.arith(op, y, w, s)
                    if isinstance(y, Raise):
                        return [(st, y)]
            return [(s, y)]
        if n in ('fliplr', 'flipud', 'flip') and a:
            x = a[0]
            s = st.copy()
            if x[0] != 'nd':
                r = self.arr(st, x)
                if r is None:
                    return None
                x = self.new(s, *r[:3])
            full = ('slice', NONE, NONE, NONE)
            rev = ('slice', NONE, NONE, C(-1))
            if n == 'flip' and (len(a) > 1 or kw) or n == 'fliplr' and len(x[2]) < 2:
                return [(st, Raise('ValueError', self.line))] if n == 'fliplr' else None
            i = tup(full, rev) if n == 'fliplr' else tup(rev) if n == 'flipud' else tup(*[rev] * len(x[2]))
            return self.getitem(x, i, s)
        if n == 'factorial' and len(a) == 1:
            x = self.arr(st, a[0])
            if x is None or any(const(p) is None or const(p)[0].denominator != 1 for p in x[1]):
                return None
            exact = kw.get('exact', FALSE) == TRUE or q.startswith('math')
            return self.elementwise(st, lambda p: pconst(math.factorial(int(const(p)[0])) if const(p)[0] >= 0 else 0), a[0], d='i' if exact else 'f')
        if n in ('sum', 'prod') and len(a) == 1:
            x = self.arr(st, a[0])
            if x is None or len(x[0]) > 1 and q == 'builtins.sum':
                return None
            ax = kw.pop('axis', NONE)
            if kw or not x[0] and n == 'sum' and not self.isnum(a[0]):
                return None
            fold = (lambda l: self.total(l)) if n == 'sum' else self.product
            s = st.copy()
            if ax == NONE or len(x[0]) == 1 and ax in (C(0), C(-1)):
                return [(s, self.mk(fold(x[1]), x[2]))]
            if is_c(ax) and isinstance(ax[2], int) and -len(x[0]) <= ax[2] < len(x[0]):
                k = ax[2] % len(x[0])
                sd = strides(x[0])
                sh = x[0][:k] + x[0][k + 1:]
                res = []
                for pos in positions(sh):
                    full = lambda j: pos[:k] + (j,) + pos[k:]  # noqa: E731
                    res.append(fold([x[1][sum(p * q2 for p, q2 in zip(full(j), sd))] for j in range(x[0][k])]))
                return [(s, self.out(s, sh, res, x[2]))]
            return None
        if n in ('diag', 'diagonal') and len(a) == 1 and not kw and a[0][0] == 'nd' and q.startswith('numpy'):
            x = self.arr(st, a[0])
            s = st.copy()
            if len(x[0]) == 2:
                k = min(x[0])
                return [(s, self.new(s, (k,), [x[1][i * x[0][1] + i] for i in range(k)], x[2]))]
            if n == 'diag':
                k = x[0][0]
                return [(s, self.new(s, (k, k), [x[1][i] if i == j else {} for i in range(k) for j in range(k)], x[2]))]
        if n == 'outer' and len(a) == 2 and not kw:
            x, y = self.arr(st, a[0]), self.arr(st, a[1])
            s = st.copy()
            return [(s, self.new(s, (size(x[0]), size(y[0])), [fmul(p, r) for p in x[1] for r in y[1]], top(x[2], y[2])))] if x and y else None
        if n in ('ravel', 'transpose', 'reshape', 'trace') and a and a[0][0] == 'nd' and q.startswith('numpy.'):
            return self.method(n, a[0], a[1:], kw, st) if n != 'trace' else None
        if n == 'issparse' or n == 'isspmatrix':
            return [(st, C(a[0][0] == 'nd' and a[0][5] == 's'))]
        if n in ('csc_matrix', 'csr_matrix', 'csc_array') and a:
            sh = self.dims(a[0]) if a[0][0] == 'tup' else None
            d = self.dtype(kw, (), 0, None)
            s = st.copy()
            if sh and len(sh) == 2:
                return [(s, self.new(s, sh, [{}] * size(sh), d or 'f', 's'))]
            x = self.arr(st, a[0])
            if x and len(x[0]) == 2:
                return [(s, self.new(s, x[0], x[1], d or x[2], 's'))]
            return None
        if n in ('eig', 'eigh') and a and a[0][0] == 'nd' and len(a) == 1 and not kw:
            x = self.arr(st, a[0])
            if x[3] == 's' or len(x[0]) != 2 or x[0][0] != x[0][1]:
                return [(st, Raise('ValueError', self.line))]
            k = x[0][0]
            s = st.copy()
            i = len(self.eigs)
            self.eigs[i] = (n, [pkey(p) for p in x[1]])
            d = self.new(s, (k,), [var(('lam', i, j)) for j in range(k)], 'f')
            v = self.new(s, (k, k), [padd(var(('vec', i, r, j, 're')), fmul(var(('vec', i, r, j, 'im')), {(): (Fraction(0), Fraction(1))}))
                                     for r in range(k) for j in range(k)], 'c')
            return [(s, tup(d, v))]
        if n in ('float', 'complex') and len(a) == 1 and a[0][0] in ('P', 'sym'):
            p, d = self.num(a[0])
            return [(st, self.mk(p, top(d, n[0])))] if not (n == 'float' and d == 'c') else None
        if n == 'pow' and len(a) == 2:
            return self.binop('**', a[0], a[1], st)
        return None

    @staticmethod
    def total(ps):
        r = {}
        for p in ps:
            r = padd(r, p)
        return r

    @staticmethod
    def product(ps):
        r = pconst(1)
        for p in ps:
            r = fmul(r, p)
        return r

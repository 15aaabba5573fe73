"""C28: the probability densities of the toolbox are normalised and have the mean of what they describe."""
from fractions import Fraction
from .common import *
from ..algebra import Unknown, pconst, padd, pmul, pneg, pkey, unkey, ppow, Algebra, show_mat, radsimp
from ..banded import peq, var

RULE = ('product normal form of every density, c x^a (1-x)^b or c x^a exp(-k x^m) with symbolic exponents, whose integral and mean are closed '
        'forms of gamma functions, compared with one and the required mean')
X, D, LAM = ('sym', 'x'), ('sym', 'dim'), ('sym', 'lam')
R = 'QuantumToolbox.rmtDistributions.'
HALF_D = ('sym', 'half of dim')
EXT = lambda q: ('ext', q)  # noqa: E731


def lin(t):
    """polynomial of an exponent or argument; gammaln terms stay atoms"""
    class A(Algebra):
        def sc(self, t):
            if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in ('gammaln', 'lgamma', 'loggamma') and len(t[2]) == 1:
                return var(('gammaln', pkey(lin(t[2][0]))))
            if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('numpy.log', 'math.log') and len(t[2]) == 1:
                return var(('log', pn(t[2][0])))
            if t[0] == 'bin' and t[1] in ('//', '%') and t[3][0] == 'c' and isinstance(t[3][2], int) and t[3][2] > 0:
                p, n = lin(t[2]), t[3][2]
                c = p.pop((), (Fraction(0), Fraction(0)))
                if c[1] or any(k[1] or (k[0] / n).denominator != 1 or any(x not in (D, HALF_D) or e < 0 for x, e in m) for m, k in p.items()) \
                        or c[0].denominator != 1:
                    raise Unknown('floor division')
                if t[1] == '%':
                    return pconst(c[0] % n)
                return padd(pmul(p, pconst(Fraction(1) / n)), pconst(c[0] // n))
            r = super().sc(t)
            if r == var(t) and t[0] not in ('sym', 'ext'):
                raise Unknown('number ' + repr(t)[:80])
            return r
    return A().sc(t)


def mulp(a, b):
    r = dict(a)
    for k, e in b:
        s = padd(unkey(r.get(k, ())), unkey(e))
        if s:
            r[k] = pkey(s)
        else:
            r.pop(k, None)
    return r


def norm(d):
    return tuple(sorted(d.items(), key=repr))


def scale(d, p):
    return {k: pkey(pmul(unkey(e), p)) for k, e in d}


def number(c):
    if c[1] != 0 or c[0] == 0:
        raise Unknown('constant')
    out = {}
    f = c[0]
    if f < 0:
        out['sign'] = pkey(pconst(1))
        f = -f
    for n, s in ((f.numerator, 1), (f.denominator, -1)):
        p = 2
        while n > 1:
            if p * p > n:
                p = n
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            if k:
                out[('prime', p)] = pkey(padd(unkey(out.get(('prime', p), ())), pconst(s * k)))
            p += 1
    return norm({k: v for k, v in out.items() if v})


def expo(p):
    """e to the power of a polynomial"""
    out = {}
    rest = {}
    for m, c in p.items():
        at = [(x, e) for x, e in m if isinstance(x, tuple) and x and x[0] in ('gammaln', 'log')]
        if len(at) == 1 and at[0][1] == 1:
            k = {tuple(y for y in m if y != at[0]): c}
            x = at[0][0]
            out = mulp(out, norm({('gamma', x[1]): pkey(k)})) if x[0] == 'gammaln' else mulp(out, norm(scale(x[1], k)))
        elif at:
            raise Unknown('exponent')
        else:
            rest[m] = c
    if rest:
        out = mulp(out, (('e', pkey(rest)),))
    return norm(out)


def ofpoly(p):
    """product form of a polynomial"""
    if not p:
        raise Unknown('zero')
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {x: min(e, d.get(x, 0)) for x, e in common.items()}
    common = {x: e for x, e in (common or {}).items() if e}
    if common or len(p) == 1:
        inv = {tuple(sorted(((x, -e) for x, e in common.items()), key=repr)): (Fraction(1), Fraction(0))}
        rest = pmul(p, inv)
        out = {}
        for x, e in common.items():
            if x == EXT('numpy.pi') or x == EXT('math.pi'):
                x = 'pi'
            elif x == EXT('numpy.e'):
                x = 'e'
            elif isinstance(x, tuple) and x[0] == 'poly':
                out = mulp(out, norm(scale(ofpoly(unkey(x[1])), pconst(e))))
                continue
            elif isinstance(x, tuple) and x[0] == 'fn' and x[1] == 'exp':
                out = mulp(out, norm(scale(expo(unkey(x[2])), pconst(e))))
                continue
            elif isinstance(x, tuple) and x[0] == 'rad':
                out = mulp(out, norm(scale(number((Fraction(x[1]), 0)), pconst(Fraction(e) / 2))))
                continue
            out = mulp(out, ((x, pkey(pconst(e))),))
        if len(rest) == 1 and () in rest:
            return norm(mulp(out, number(rest[()])))
        return norm(mulp(out, ofpoly(rest)))
    # a sum: the leading coefficient is taken out
    c = min(((m, c) for m, c in p.items()), key=lambda y: repr(y[0]))[1]
    if c[1] != 0:
        raise Unknown('complex')
    mag = (abs(c[0]), Fraction(0))
    q = pmul(p, pconst(Fraction(1) / mag[0]))
    return norm(mulp(dict(number(mag)), ((('poly', pkey(q)), pkey(pconst(1))),)))


def pn(t):
    """product normal form: sorted ((base, exponent), ...)"""
    h = t[0]
    if h == 'bin' and t[1] in '*/' and t[1] != '**':
        a, b = pn(t[2]), pn(t[3])
        return norm(mulp(dict(a), b if t[1] == '*' else norm(scale(b, pconst(-1)))))
    if h == 'bin' and t[1] == '**':
        if t[2] in (EXT('numpy.e'), EXT('math.e')):
            return expo(lin(t[3]))
        return norm(scale(pn(t[2]), lin(t[3])))
    if h == 'un' and t[1] == '-':
        return norm(mulp(dict(pn(t[2])), (('sign', pkey(pconst(1))),)))
    if h == 'call' and t[1][0] == 'ext':
        q, a = t[1][1].split('.')[-1], t[2]
        if q == 'exp' and len(a) == 1:
            return expo(lin(a[0]))
        if q == 'sqrt' and len(a) == 1:
            return norm(scale(pn(a[0]), pconst(Fraction(1, 2))))
        if q in ('power', 'pow') and len(a) == 2:
            return pn(('bin', '**') + tuple(a))
        if q == 'gamma' and len(a) == 1:
            return norm({('gamma', pkey(lin(a[0]))): pkey(pconst(1))})
        if q == 'factorial' and a:
            return norm({('gamma', pkey(padd(lin(a[0]), pconst(1)))): pkey(pconst(1))})
        if q in ('float', 'float64', 'real', 'asarray', 'array') and len(a) == 1:
            return pn(a[0])
        if q == 'beta' and len(a) == 2:
            x, y = lin(a[0]), lin(a[1])
            one, mone = pkey(pconst(1)), pkey(pconst(-1))
            out = {}
            for k, e in ((x, one), (y, one), (padd(x, y), mone)):
                out = mulp(out, ((('gamma', pkey(k)), e),))
            return norm(out)
    if t in (EXT('numpy.pi'), EXT('math.pi')):
        return (('pi', pkey(pconst(1))),)
    return ofpoly(lin(t))


def reduce(d):
    """gamma functions whose arguments differ by an integer are reduced to one of them and polynomials"""
    d = dict(d)
    out = {}
    gam = {}
    for k, e in d.items():
        if isinstance(k, tuple) and k[0] == 'gamma':
            p = unkey(k[1])
            c = p.get((), (Fraction(0), Fraction(0)))[0]
            rest = {m: v for m, v in p.items() if m != ()}
            gam.setdefault((pkey(rest), c - (c.numerator // c.denominator)), []).append((c, e))
        else:
            out = mulp(out, ((k, e),))
    for (rest, frac), items in gam.items():
        low = min(c for c, e in items)
        if not rest:
            # numbers
            for c, e in items:
                v = Fraction(1)
                pi = Fraction(0)
                if c <= 0 or frac not in (0, Fraction(1, 2)):
                    raise Unknown('gamma of a number')
                if frac:
                    pi = Fraction(1, 2)
                k = c - 1
                while k > 0:
                    v *= k
                    k -= 1
                out = mulp(out, norm(scale(number((v, 0)), unkey(e))))
                if pi:
                    out = mulp(out, (('pi', pkey(pmul(pconst(pi), unkey(e)))),))
            continue
        tot = {}
        for c, e in items:
            tot = padd(tot, unkey(e))
            k = low
            while k < c:
                out = mulp(out, norm(scale(ofpoly(padd(unkey(rest), pconst(k))), unkey(e))))
                k += 1
        if tot:
            out = mulp(out, ((('gamma', pkey(padd(unkey(rest), pconst(low)))), pkey(tot)),))
    if out.get('sign') and unkey(out['sign']) in (pconst(2), pconst(-2)):
        out.pop('sign')
    return norm({k: v for k, v in out.items() if v})


def same(a, b=()):
    """equal product forms, with polynomials of integer powers multiplied out"""
    r = reduce(norm(mulp(dict(a), norm(scale(b, pconst(-1))))))
    num, den = pconst(1), pconst(1)
    for k, e in r:
        p = unkey(e)
        if len(p) != 1 or () not in p or p[()][1] or p[()][0].denominator != 1:
            return False
        n = int(p[()][0])
        if isinstance(k, tuple) and k[0] == 'poly':
            base = unkey(k[1])
        elif isinstance(k, tuple) and k[0] == 'prime':
            base = pconst(k[1])
        elif isinstance(k, tuple) and k[0] == 'gamma' or k in ('e', 'pi', 'sign'):
            return False
        else:
            base = var(k)
        for _ in range(abs(n)):
            if n > 0:
                num = pmul(num, base)
            else:
                den = pmul(den, base)
    return num == den


def gamma(p, e=1):
    return ((('gamma', pkey(p)), pkey(pconst(e))),)


def parts(d):
    """(rest, exponent of x, exponent of 1-x, exponent of e)"""
    d = dict(d)
    a = unkey(d.pop(X, ()))
    b = {}
    one = padd(pconst(1), pneg(var(X)))
    for k in list(d):
        if isinstance(k, tuple) and k[0] == 'poly':
            p = unkey(k[1])
            if p == one:
                b = padd(b, unkey(d.pop(k)))
            elif X in [x for m in p for x, e in m]:
                raise Unknown('factor ' + show_mat({(): p}))
    e = unkey(d.pop('e', ()))
    for k, v in d.items():
        if repr(X) in repr(k) or repr(X) in repr(v):
            raise Unknown('factor depends on the variable')
    return norm(d), a, b, e


def beta_integral(a, b):
    one = pconst(1)
    a1, b1 = padd(a, one), padd(b, one)
    out = {}
    for k, e in ((a1, 1), (b1, 1), (padd(a1, b1), -1)):
        out = mulp(out, gamma(k, e))
    return norm(out)


def exp_integral(a, e):
    """of x**a exp(e) from zero to infinity, e = -k x**m"""
    if len(e) != 1:
        raise Unknown('exponent')
    (m, c), = e.items()
    d = dict(m)
    n = d.pop(X, 0)
    if n <= 0 or c[0] >= 0 or c[1] or len(a) > 1 or a and () not in a:
        raise Unknown('exponent')
    k = ofpoly({tuple(sorted(d.items(), key=repr)): (-c[0], Fraction(0))})
    z = (a.get((), (Fraction(0), 0))[0] + 1) / n
    out = mulp(dict(number((1 / Fraction(n), 0))), norm(scale(k, pconst(-z))))
    return norm(mulp(out, gamma(pconst(z))))


def show_pn(d):
    def nm(k):
        return k if isinstance(k, str) else str(k[1]) if k[0] == 'prime' else 'gamma(' + show_mat({(): unkey(k[1])}) + ')' if k[0] == 'gamma' else \
            '(' + show_mat({(): unkey(k[1])}) + ')' if k[0] == 'poly' else show(k)
    return ' '.join(f'{nm(k)}^({show_mat({(): unkey(e)})})' for k, e in d).replace(' 1)', ')') or '1'


def returns(prog, name, args):
    f = prog.fn(R + name)
    I = Interp(prog)
    for a in args:
        if a[0] == 'sym':
            I.kinds[a] = frozenset('z')
    out = []
    for st, v in I.run(f, args):
        if isinstance(v, Raise):
            continue
        v = I.freeze(st, v)
        if v[0] == 'c' or not mentions(v, X):
            continue        # limits of very large and small values
        if v not in out:
            out.append(v)
    return f, out


def mentions(t, x):
    return any(y == x for y in terms(t))


def parities(vs):
    """the values for even and odd dimensions, where it makes a difference to the arithmetic"""
    out = []
    for v in vs:
        if any(t[0] == 'bin' and t[1] in ('//', '%') for t in terms(v)):
            for r in (0, 1):
                n = ('bin', '*', C(2), HALF_D)
                n = ('bin', '+', n, C(1)) if r else n
                out.append((sub(v, D, n), n, f' in {"odd" if r else "even"} dimensions'))
        else:
            out.append((v, D, ''))
    return out


def sub(t, a, b):
    return b if t == a else tuple(sub(x, a, b) for x in t) if isinstance(t, tuple) else t


def densities(prog, rep):
    for beta in (1, 2, 4):
        with rep.guard(f'EigenVectorDist:{beta}'):
            f, vs = returns(prog, 'EigenVectorDist', [X, D, C(beta)])
            for v, dim, when in parities(vs):
                c, a, b, e = parts(pn(v))
                if e:
                    raise Unknown('exponential')
                total = reduce(norm(mulp(dict(c), beta_integral(a, b))))
                if not same(total):
                    rep.bad(f'norm:EigenVectorDist:{beta}', where(f), f'distribution of eigenvector components for beta={beta} integrates{when} to '
                            f'{show_pn(total)} instead of one')
                    break
                mean = reduce(norm(mulp(dict(c), beta_integral(padd(a, pconst(1)), b))))
                want = reduce(pn(('bin', '/', C(2 if beta == 4 else 1), dim)))
                if not same(mean, want):
                    rep.bad(f'mean:EigenVectorDist:{beta}', where(f), f'distribution of eigenvector components for beta={beta} has{when} the mean '
                            f'{show_pn(mean)} instead of {show_pn(want)}')
                    break
            else:
                for x in ('integral', 'mean'):
                    rep.ok(f'{x} of the distribution of eigenvector components, beta={beta}') if vs else rep.undecided(f'EigenVectorDist:{beta}', 'no result')
    for beta in (0, 1, 2, 4):
        with rep.guard(f'WignerDyson:{beta}'):
            f, vs = returns(prog, 'WignerDyson', [X, C(beta)])
            for v in vs:
                c, a, b, e = parts(pn(v))
                if b:
                    raise Unknown('factor 1-x')
                total = reduce(norm(mulp(dict(c), exp_integral(a, e))))
                mean = reduce(norm(mulp(dict(c), exp_integral(padd(a, pconst(1)), e))))
                bad = [n for n, y in (('integral', total), ('mean', mean)) if not same(y)]
                if bad:
                    rep.bad(f'{bad[0]}:WignerDyson:{beta}', where(f), f'level spacing distribution for beta={beta} has the {bad[0]} '
                            f'{show_pn(total if bad[0] == "integral" else mean)} instead of one')
                    break
                want = pconst(beta)
                if not peq(a, want):
                    rep.bad(f'repulsion:WignerDyson:{beta}', where(f), f'level spacing distribution for beta={beta} grows as x to the power {show_mat({(): a})}')
                    break
            else:
                for x in ('integral', 'mean', 'level repulsion'):
                    rep.ok(f'{x} of the level spacing distribution, beta={beta}') if vs else rep.undecided(f'WignerDyson:{beta}', 'no result')
    with rep.guard('Poissonian'):
        f, vs = returns(prog, 'Poissonian', [X, LAM])
        want = {}
        want = mulp(want, ((LAM, pkey(var(X))),))
        want = mulp(want, (('e', pkey(pneg(var(LAM)))),))
        want = norm(mulp(want, gamma(padd(var(X), pconst(1)), -1)))
        for v in vs:
            got = pn(v)
            if not same(got, want):
                rep.bad('form:Poissonian', where(f), f'Poisson distribution is {show_pn(got)} instead of {show_pn(want)}')
                break
        else:
            rep.ok('Poisson distribution') if vs else rep.undecided('Poissonian', 'no result')


def check(prog, tier):
    rep = Report('C28', prog, tier, RULE,
                 'Every distribution was interpreted for a symbolic argument and dimension; the returned product was integrated in closed form.',
                 ['exact arithmetic', 'limits for very large and very small values are not part of the density', 'the dimension is large enough for the '
                  'density to exist'])
    with rep.guard('densities'):
        densities(prog, rep)
    return rep.finish(10)

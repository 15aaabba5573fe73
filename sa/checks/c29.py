"""C29: Hamiltonians, propagators and states of composites place every part at the position of its system."""
import re
from fractions import Fraction
from .histories import *
from ..client import ClientInterp, generic
from ..algebra import show_mat, Algebra, Unknown, pconst, padd, pmul, pneg, pkey, unkey
from ..banded import var

RULE = ('client programs over symbolic dimensions, strengths and orders are followed to the exact expression of Hamiltonian, propagator and '
        'state; the expression is expanded into products of operators with their positions among the systems and compared with the sum over '
        'the parts')

SPIN = ('Jx', 'Jy', 'Jz', 'Jp', 'Jm', 'Js')
SIGMA = ('sigmax', 'sigmay', 'sigmaz', 'sigmap', 'sigmam')
PLAIN = ('number', 'create', 'destroy', 'paritySUM')
ONE = pkey(pconst(1))


class Wrong(Exception):
    """the expression cannot be the one of a composite"""


class Num(Algebra):
    def sc(self, t):
        if t[0] == 'gen':
            return var(t[1])
        if t[0] == 'call' and t[1] == ('ext', 'builtins.int') and len(t[2]) == 1:
            return self.sc(t[2][0])
        if t[0] == 'bin' and t[1] == '//':
            return self.sc(('bin', '/') + t[2:])
        if t[0] in ('c', 'bin', 'un', 'neg', 'usub'):
            return super().sc(t)
        raise Unknown('number ' + show(t)[:80])


def number_(t):
    return Num().sc(t)


def argument(args, kwargs, i, name):
    return args[i] if len(args) > i else dict(kwargs).get(name)


class Mat:
    """dimension and {word: coefficient}, a word is a tuple of (dimension before, dimension after, operator)"""

    def __init__(self, dim, words):
        self.dim, self.words = dim, {w: c for w, c in words.items() if c}


def plus(a, b):
    if a is None or b is None:
        return a or b
    if a.dim is not None and b.dim is not None and a.dim != b.dim:
        raise Wrong('operators of different dimensions are added')
    out = dict(a.words)
    for w, c in b.words.items():
        out[w] = padd(out.get(w, {}), c)
    return Mat(a.dim or b.dim, out)


def times(a, p):
    return Mat(a.dim, {w: pmul(c, p) for w, c in a.words.items()})


def product(a, b):
    if a.dim != b.dim:
        raise Wrong('operators of different dimensions are multiplied')
    out = {}
    for u, x in a.words.items():
        for v, y in b.words.items():
            out[u + v] = padd(out.get(u + v, {}), pmul(x, y))
    return Mat(a.dim, out)


def kron(a, b):
    da, db = unkey(a.dim), unkey(b.dim)
    out = {}
    for u, x in a.words.items():
        for v, y in b.words.items():
            w = tuple((B, pkey(pmul(unkey(A), db)), o) for B, A, o in u) + tuple((pkey(pmul(da, unkey(B))), A, o) for B, A, o in v)
            out[w] = padd(out.get(w, {}), pmul(x, y))
    return Mat(pkey(pmul(da, db)), out)


def ident(t):
    return Mat(pkey(number_(t)), {(): pconst(1)})


def elementary(name, dim):
    d = pkey(dim)
    return Mat(d, {((ONE, ONE, (name, d)),): pconst(1)})


def operator(t):
    """Mat of a toolbox expression; None is the number zero"""
    h = t[0]
    if h == 'c' and t[2] == 0 and t[1] in ('int', 'float'):
        return None
    if h == 'hc':
        raise Unknown('adjoint')
    if h == 'bin':
        op = t[1]
        if op in ('+', '-'):
            b = operator(t[3])
            return plus(operator(t[2]), b if op == '+' or b is None else times(b, pconst(-1)))
        if op == '*':
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if generic(x):
                    m = operator(y)
                    return None if m is None else times(m, number_(x))
            return product(operator(t[2]), operator(t[3]))
        if op == '@':
            return product(operator(t[2]), operator(t[3]))
        if op == '/' and generic(t[3]):
            return times(operator(t[2]), number_(('bin', '/', C(1), t[3])))
    if h in ('neg', 'usub') or h == 'un' and t[1] == '-':
        return times(operator(t[-1]), pconst(-1))
    if h == 'op':
        name, args, kw = t[1], t[2], t[3]
        if name == 'identity':
            return ident(argument(args, kw, 0, 'dimension'))
        if name in PLAIN:
            return elementary(name, number_(argument(args, kw, 0, 'dimension')))
        if name in SIGMA:
            return elementary(name, pconst(2))
        if name in SPIN:
            p = number_(argument(args, kw, 0, 'j'))
            if argument(args, kw, 2, 'isDim') not in (TRUE, FALSE, None):
                raise Unknown('isDim')
            return elementary(name, p if argument(args, kw, 2, 'isDim') == TRUE else padd(pmul(p, pconst(2)), pconst(1)))
        if name == 'compositeOp':
            m = operator(argument(args, kw, 0, 'operator'))
            for i, nm in ((1, 'dimB'), (2, 'dimA')):
                d = argument(args, kw, i, nm)
                if d is not None and d != C(1):
                    m = kron(ident(d), m) if i == 1 else kron(m, ident(d))
            return m
        if name == 'tensorProd':
            out = None
            for x in args:
                m = ident(x) if generic(x) else operator(x)
                out = m if out is None else kron(out, m)
            return out
        if name == '_matPower':
            m, k = operator(argument(args, kw, 0, 'matrix')), argument(args, kw, 1, 'power')
            if k == C(1):
                return m
            if is_c(k) and isinstance(k[2], int) and k[2] > 1:
                out = m
                for _ in range(k[2] - 1):
                    out = product(out, m)
                return out
            if len(m.words) == 1:
                (w, c), = m.words.items()
                if len(w) == 1 and c == pconst(1) and len(w[0][2]) == 2:
                    return Mat(m.dim, {((w[0][0], w[0][1], w[0][2] + (pkey(number_(k)),)),): c})
            raise Unknown('power')
        if name == 'operatorPow' and args and args[0][0] == 'fn':
            f = ('op', args[0][1].split('.')[-1], () if args[0][1].split('.')[-1] in SIGMA else (args[1],), ())
            return operator(('op', '_matPower', (f, args[2]), ()))
        if name == '_matMulInputs':
            out = operator(args[0])
            for x in args[1:]:
                out = product(out, operator(x))
            return out
    raise Unknown('operator ' + show(t)[:100])


class Layout:
    """systems with names and dimensions in their order"""

    def __init__(self, text_):
        self.names, self.dims = [], []
        for x in text_.split():
            n, d = x.split(':')
            self.names.append(n)
            self.dims.append(poly(d))
        self.spans = {}
        for i in range(len(self.names)):
            for j in range(i + 1, len(self.names) + 1):
                self.spans[(pkey(self.prod(0, i)), pkey(self.prod(j, len(self.names))))] = (i, j)
        self.total = pkey(self.prod(0, len(self.names)))

    def prod(self, i, j):
        out = pconst(1)
        for d in self.dims[i:j]:
            out = pmul(out, d)
        return out

    def words(self, m):
        if m is None:
            return {}
        if m.dim is not None and m.dim != self.total:
            raise Wrong(f'the dimension is {num(m.dim)} instead of {num(self.total)}')
        out = {}
        for w, c in m.words.items():
            v = []
            for B, A, o in w:
                s = self.spans.get((B, A))
                if s is None or pkey(self.prod(*s)) != o[1]:
                    raise Wrong(f'{o[0]} of dimension {num(o[1])} is placed between the dimensions {num(B)} and {num(A)}, where no system is')
                v.append((s, o))
            v = self.commute(v)
            out[v] = padd(out.get(v, {}), c)
        return {w: pkey(c) for w, c in out.items() if c}

    @staticmethod
    def commute(v):
        v = list(v)
        for _ in v:
            for i in range(len(v) - 1):
                (a, b), (c, d) = v[i][0], v[i + 1][0]
                if d <= a:
                    v[i], v[i + 1] = v[i + 1], v[i]
        return tuple(v)

    def show(self, w):
        return ' '.join(f'{o[0]}{"^" + num(o[2]) if len(o) > 2 else ""} on {"+".join(self.names[s[0]:s[1]])}' for s, o in w) or 'identity'

    def expected(self, text_):
        out = {}
        for t in text_.split(' + '):
            toks = t.split()
            c = pconst(1)
            v = []
            for x in toks:
                if '@' not in x:
                    c = pmul(c, poly(x))
                    continue
                o, at = x.split('@')
                at, _, k = at.partition('^')
                ns = at.split(',')
                i = self.names.index(ns[0])
                s = (i, i + len(ns))
                key = (o, pkey(self.prod(*s)))
                if k.isdigit():
                    v += [(s, key)] * int(k)
                else:
                    v.append((s, key + (pkey(poly(k)),) if k else key))
            v = self.commute(v)
            out[v] = padd(out.get(v, {}), c)
        return {w: pkey(c) for w, c in out.items()}


def poly(s):
    out = pconst(1)
    for i, f in enumerate(re.split(r'([*/])', s)):
        if f in '*/':
            sign = f
            continue
        p = pconst(float(f) if '.' in f else int(f)) if re.fullmatch(r'-?[\d.]+', f) else var(f)
        out = pmul(out, p if not i or sign == '*' else {tuple((x, -e) for x, e in m): c for m, c in p.items()} if f[0].isalpha() else pconst(1 / Fraction(f)))
    return out


def num(k):
    return show_mat({(): unkey(k)}) if k else '0'







def exact_hook(I, func, args, kwargs, st, line):
    if isinstance(func, Func) and func.key.startswith('quanguru.QuantumToolbox.') and not func.key.endswith('.__init__'):
        fr = lambda v: I.freeze(st, v)  # noqa: E731
        return [(st, ('op', func.name, tuple(fr(v) for v in args), tuple((k, fr(v)) for k, v in kwargs)))]
    return None


class Exact(ClientInterp):
    def static_kinds(self, st, t):
        return frozenset('o') if t[0] == 'op' else super().static_kinds(st, t)

    def decide_isinst(self, x, types, st):
        if x[0] == 'op':
            return bool({t[1].split('.')[-1] for t in types if t[0] == 'ext'} & {'spmatrix', 'csc_matrix', 'csr_matrix'})
        return super().decide_isinst(x, types, st)

    def truth_cmp(self, op, a, b, st):
        if op in ('==', 'is') and (a[0] == 'op' or b[0] == 'op'):
            o = b if a[0] == 'op' else a
            if o[0] in ('c', 'gen', 'fn', 'cls', 'tup', 'L', 'obj'):
                return [(st, False)]
        return super().truth_cmp(op, a, b, st)

    def x_builtins_callable(self, a, kw, st, line):
        if a[0][0] == 'op':
            return [(st, FALSE)]
        return super().x_builtins_callable(a, kw, st, line)


def states(t):
    """factors of a product state in order"""
    if t[0] == 'op' and t[1] == 'tensorProd':
        out = []
        for x in t[2]:
            out += states(x)
        return out
    if t[0] == 'op' and t[1] == 'superPos':
        a, k = t[2], t[3]
        pop = argument(a, k, 2, 'populations')
        return [(dimtext(argument(a, k, 0, 'dimension')), plain(argument(a, k, 1, 'excitations')), '' if pop in (None, TRUE) else ' amplitudes'
                 if pop == FALSE else show(pop))]
    if t[0] == 'op' and t[1] in ('basis', 'basisVector') or t[0] == 'gen':
        return [(show(t), '', '')]
    raise Unknown('state ' + show(t)[:100])


def dimtext(t):
    p = number_(t)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return str(c[0])
        if len(m) == 1 and m[0][1] == 1 and c == pconst(1)[()]:
            return m[0][0]
    return num(pkey(p))


def plain(t):
    if t[0] == 'gen':
        return t[1]
    if is_c(t):
        return str(t[2])
    if t[0] in ('L', 'tup'):
        return '[' + ','.join(plain(x) for x in t[1:]) + ']'
    if t[0] == 'put':
        d = []
        while t[0] == 'put':
            d.insert(0, f'{plain(t[2])}:{plain(t[3])}')
            t = t[1]
        if t == ('D',):
            return '{' + ','.join(d) + '}'
    if t[0] == 'D':
        return '{' + ','.join(f'{plain(k)}:{plain(v)}' for k, v in t[1:]) + '}'
    raise Unknown('input ' + show(t)[:100])


def compare(L, m, want):
    """what is wrong, or None"""
    try:
        got = L.words(m)
    except Wrong as e:
        return str(e)
    for w in want:
        if w not in got:
            return f'{num(want[w])} times {L.show(w)} is missing'
        if got[w] != want[w]:
            return f'{L.show(w)} has the coefficient {num(got[w])} instead of {num(want[w])}'
    for w in got:
        if w not in want:
            return f'{num(got[w])} times {L.show(w)} is added'
    return None


def judge_value(spec, t):
    kind, *rest = [x.strip() for x in spec.split('|')]
    if kind == 'state':
        got = [f'{d}:{x}{p}' for d, x, p in states(t)]
        want = rest[0].split()
        want = [w.replace('_', ' ') for w in want]
        return None if got == want else f'is the product of ({"; ".join(got)}) instead of ({"; ".join(want)})'
    L = Layout(rest[0])
    want = L.expected(rest[1])
    if kind == 'H':
        try:
            m = operator(t)
        except Wrong as e:
            return str(e)
        return compare(L, m, want)
    if kind.startswith('U'):
        k = poly(kind[1:].strip())
        while t[0] == 'bin' and t[1] == '@':
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if y[0] == 'op' and y[1] == 'identity' and ident(argument(y[2], y[3], 0, 'dimension')).dim == L.total:
                    t = x
                    break
            else:
                break
        if not (t[0] == 'op' and t[1] in ('LiouvillianExp', 'Unitary')):
            raise Unknown('propagator ' + show(t)[:100])
        try:
            m = operator(argument(t[2], t[3], 0, 'Hamiltonian'))
        except Wrong as e:
            return str(e)
        step = argument(t[2], t[3], 1, 'timeStep')
        if step is None:
            raise Unknown('time step')
        return compare(L, times(m, number_(step)), {w: pkey(pmul(unkey(c), k)) for w, c in want.items()})
    raise ValueError(kind)


def case(rep, prog, source, name, spec, label):
    c = Client(prog, source, hooks=exact_hook, interp=Exact)
    state = spec.startswith('state')
    vals = []
    for st, v in c.run(name):
        if isinstance(v, Raise):
            rep.undecided(label, f'raises {v.exc}')
            return
        t = c.I.freeze(st, v)
        if t not in vals and not (state and t == NONE):     # an input too large for the dimension gives no state
            vals.append(t)
    if not vals or len(vals) > 1 and not state:
        rep.undecided(label, f'{len(vals)} values')
        return
    for t in vals:
        why = judge_value(spec, t)
        rep.count('expressions')
        if why:
            rep.bad('place:' + label, place(prog, 'QSystem.QuantumSystem._createInitialState' if state else 'QTerms.QTerm._dimInput'),
                    f'{label}: {"the state " if state else ""}{why}')
            return
    rep.ok(label)


def guarded(rep, prog, source, name, spec, label=None):
    label = label or name[5:].replace('_', ' ')
    try:
        case(rep, prog, source, name, spec, label)
    except (Unknown, Unsupported) as e:
        rep.undecided(label, f'{type(e).__name__}: {e}')


# every case returns one expression; its first line says what it has to be:
#   H | systems with dimensions | sum of strengths and operators@system^power       U factor | ... (propagator of the time factor)
#   state | dimension:input of every factor
CASES = '''
def case_one_cavity():
    "H | c:d1 | f1 number@c"
    c = Cavity(frequency=f1, dimension=d1)
    return c.totalHamiltonian
def case_qubit_has_spin_operator():
    "H | q:2 | f1 Jz@q"
    q = Qubit(frequency=f1)
    return q.totalHamiltonian
def case_spin_by_j():
    "H | p:4 | f1 Jz@p"
    p = Spin(frequency=f1, jValue=1.5)
    return p.totalHamiltonian
def case_spin_by_dimension():
    "H | p:d1 | f1 Jz@p"
    p = Spin(frequency=f1, dimension=d1)
    return p.totalHamiltonian
def case_order_of_a_system():
    "H | c:d1 | f1 number@c^n1"
    c = Cavity(frequency=f1, dimension=d1, order=n1)
    return c.totalHamiltonian
def case_operator_of_a_system_assigned():
    "H | q:2 | f1 sigmax@q"
    q = Qubit(frequency=f1, operator=sigmax)
    return q.totalHamiltonian
def case_several_terms():
    "H | c:d1 | f1 number@c + f2 number@c^2 + g create@c + g destroy@c"
    c = Cavity(frequency=f1, dimension=d1)
    c.createTerm(operator=number, order=2, frequency=f2)
    c.createTerm(operator=create, frequency=g)
    c.createTerm(operator=destroy, frequency=g)
    return c.totalHamiltonian
def case_all_spin_operators():
    "H | p:d1 | f1 Jz@p + f2 Jx@p + f3 Jy@p + f4 Jp@p + f5 Jm@p + f6 Js@p + f7 Jx@p^2"
    p = Spin(frequency=f1, dimension=d1)
    p.createTerm(operator=Jx, frequency=f2)
    p.createTerm(operator=Jy, frequency=f3)
    p.createTerm(operator=Jp, frequency=f4)
    p.createTerm(operator=Jm, frequency=f5)
    p.createTerm(operator=Js, frequency=f6)
    p.createTerm(operator=Jx, frequency=f7, order=2)
    return p.totalHamiltonian
def case_all_pauli_operators():
    "H | q:2 | f1 sigmaz@q + f2 sigmax@q + f3 sigmay@q + f4 sigmap@q + f5 sigmam@q"
    q = Qubit(frequency=f1, operator=sigmaz)
    q.createTerm(operator=sigmax, frequency=f2)
    q.createTerm(operator=sigmay, frequency=f3)
    q.createTerm(operator=sigmap, frequency=f4)
    q.createTerm(operator=sigmam, frequency=f5)
    return q.totalHamiltonian
def case_orders_of_pauli_operators():
    "H | q:2 a:d1 | f1 sigmax@q^2 + f2 number@a + f3 sigmaz@q^n1 + g sigmay@q^n2 create@a"
    q = Qubit(frequency=f1, operator=sigmax, order=2)
    a = Cavity(frequency=f2, dimension=d1)
    q.createTerm(operator=sigmaz, order=n1, frequency=f3)
    s = QuantumSystem(subSys=[q, a])
    s.createTerm(qSystem=[q, a], operator=[sigmay, create], order=[n2, 1], frequency=g)
    return s.totalHamiltonian
def case_custom_operator():
    "H | c:d1 | f1 number@c + f1 create@c"
    def sum_(dim):
        return number(dim) + create(dim)
    c = QuantumSystem(dimension=d1, frequency=f1, operator=sum_)
    return c.totalHamiltonian
def case_two_systems():
    "H | a:d1 b:d2 | f1 number@a + f2 number@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = QuantumSystem(subSys=[a, b])
    return s.totalHamiltonian
def case_first_of_two():
    "H | a:d1 b:d2 | f1 number@a"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = QuantumSystem(subSys=[a, b])
    return a.totalHamiltonian
def case_sum_of_systems():
    "H | a:d1 b:d2 q:2 | f1 number@a + f2 number@b + f3 Jz@q"
    s = Cavity(frequency=f1, dimension=d1) + Cavity(frequency=f2, dimension=d2) + Qubit(frequency=f3)
    return s.totalHamiltonian
def case_four_systems_with_couplings():
    "H | a:d1 q:2 p:d3 b:d2 | f1 number@a + f2 Jz@q + f3 Jz@p + f4 number@b + g create@a sigmam@q + g destroy@a sigmap@q + h Jx@p number@b^2 + k number@a number@b"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    p = Spin(frequency=f3, dimension=d3)
    b = Cavity(frequency=f4, dimension=d2)
    s = QuantumSystem(subSys=[a, q, p, b])
    s.createTerm(qSystem=[a, q], operator=[create, sigmam], frequency=g)
    s.createTerm(qSystem=[a, q], operator=[destroy, sigmap], frequency=g)
    s.createTerm(qSystem=[p, b], operator=[Jx, number], order=[1, 2], frequency=h)
    s.createTerm(qSystem=[a, b], operator=[number, number], frequency=k)
    return s.totalHamiltonian
def case_coupling_in_other_order():
    "H | a:d1 b:d2 c:d3 | f1 number@a + f2 number@b + f3 number@c + g create@a number@b^n1 destroy@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = a + b + c
    s.createTerm(qSystem=[c, a, b], operator=[destroy, create, number], order=[1, 1, n1], frequency=g)
    return s.totalHamiltonian
def case_same_system_twice_in_coupling():
    "H | a:d1 b:d2 | f1 number@a + f2 number@b + g create@a destroy@a number@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = a + b
    s.createTerm(qSystem=[a, b, a], operator=[create, number, destroy], frequency=g)
    return s.totalHamiltonian
def case_term_on_sub_system():
    "H | a:d1 b:d2 | f1 number@a + f2 number@b + f3 create@b^3 + f4 destroy@a"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    b.createTerm(operator=create, order=3, frequency=f3)
    s = a + b
    a.createTerm(operator=destroy, frequency=f4)
    return s.totalHamiltonian
def case_term_of_composite_on_sub_system():
    "H | a:d1 b:d2 | f1 number@a + f2 number@b + f3 create@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = a + b
    s.createTerm(qSystem=b, operator=create, frequency=f3)
    return s.totalHamiltonian
def case_nested():
    "H | a:d1 b:d2 c:d3 q:2 | f1 number@a + f2 number@b + f3 number@c + f4 Jz@q + g create@a destroy@b + h create@b sigmam@q + k number@a number@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    q = Qubit(frequency=f4)
    s = QuantumSystem(subSys=[a, b])
    s.createTerm(qSystem=[a, b], operator=[create, destroy], frequency=g)
    t = QuantumSystem(subSys=[c, q])
    S = QuantumSystem()
    S.addSubSys(s)
    S.addSubSys(t)
    S.createTerm(qSystem=[b, q], operator=[create, sigmam], frequency=h)
    S.createTerm(qSystem=[c, a], operator=[number, number], frequency=k)
    return S.totalHamiltonian
def case_nested_filled_afterwards():
    "H | a:d1 b:d2 c:d3 q:2 p:d4 | f1 number@a + f2 number@b + f3 number@c + f4 Jz@q + f5 Jz@p + g create@b sigmam@q"
    s = QuantumSystem()
    t = QuantumSystem()
    S = QuantumSystem()
    a = Cavity(frequency=f1, dimension=d1)
    s.addSubSys(a)
    c = Cavity(frequency=f3, dimension=d3)
    t.addSubSys(c)
    S.addSubSys(s)
    S.addSubSys(t)
    S.addSubSys(Spin(frequency=f5, dimension=d4))
    b = Cavity(frequency=f2, dimension=d2)
    s.addSubSys(b)
    q = Qubit(frequency=f4)
    t.addSubSys(q)
    S.createTerm(qSystem=[q, b], operator=[sigmam, create], frequency=g)
    return S.totalHamiltonian
def case_part_of_nested():
    "H | a:d1 b:d2 c:d3 q:2 | f3 number@c + f4 Jz@q + g create@c sigmam@q"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    q = Qubit(frequency=f4)
    t = QuantumSystem(subSys=[c, q])
    t.createTerm(qSystem=[c, q], operator=[create, sigmam], frequency=g)
    S = QuantumSystem(subSys=[QuantumSystem(subSys=[a, b]), t])
    return t.totalHamiltonian
def case_three_levels():
    "H | a:d1 b:d2 c:d3 e:d4 | f1 number@a + f2 number@b + f3 number@c + f4 number@e + g create@b number@e"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    e = Cavity(frequency=f4, dimension=d4)
    s = QuantumSystem(subSys=[b, c])
    t = QuantumSystem(subSys=[a, QuantumSystem(subSys=[s])])
    S = QuantumSystem(subSys=[t, e])
    S.createTerm(qSystem=[e, b], operator=[number, create], frequency=g)
    return S.totalHamiltonian
def case_dimension_given_afterwards():
    "H | a:d1 b:d5 c:d3 | f1 number@a + f2 number@b + f3 number@c + g create@a destroy@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b, c])
    s.createTerm(qSystem=[a, c], operator=[create, destroy], frequency=g)
    s.totalHamiltonian
    b.dimension = d5
    return s.totalHamiltonian
def case_dimensions_given_last():
    "H | a:d1 b:d2 c:d3 | f1 number@a + f2 number@b + f3 number@c"
    a = Cavity(frequency=f1)
    b = Cavity(frequency=f2)
    c = Cavity(frequency=f3)
    s = QuantumSystem(subSys=[a, b, c])
    c.dimension = d3
    a.dimension = d1
    b.dimension = d2
    return s.totalHamiltonian
def case_dimension_inside_nested_given_afterwards():
    "H | a:d1 b:d5 c:d3 q:2 | f1 number@a + f2 number@b + f3 number@c + f4 Jz@q + g number@a sigmaz@q"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    q = Qubit(frequency=f4)
    s = QuantumSystem(subSys=[a, b])
    t = QuantumSystem(subSys=[c, q])
    S = QuantumSystem(subSys=[s, t])
    S.createTerm(qSystem=[a, q], operator=[number, sigmaz], frequency=g)
    S.totalHamiltonian
    b.dimension = d5
    return S.totalHamiltonian
def case_jaynes_cummings():
    "H | c:d1 q:2 | f1 number@c + f2 Jz@q + g destroy@c Jp@q + g create@c Jm@q"
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = c + q
    s.JC(g, c, q)
    return s.totalHamiltonian
def case_jaynes_cummings_other_order():
    "H | q:n1 c:d1 e:d2 | f2 Jz@q + f1 number@c + f3 number@e + g destroy@c Jp@q + g create@c Jm@q"
    q = Spin(frequency=f2, dimension=n1)
    c = Cavity(frequency=f1, dimension=d1)
    e = Cavity(frequency=f3, dimension=d2)
    s = QuantumSystem(subSys=[q, c, e])
    s.JC(g, q, c)
    return s.totalHamiltonian
def case_jaynes_cummings_found():
    "H | c:d1 q:2 | f1 number@c + f2 Jz@q + g destroy@c Jp@q + g create@c Jm@q"
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = c + q
    s.JC(g)
    return s.totalHamiltonian
def case_jaynes_cummings_strength_changed():
    "H | c:d2 q:2 | f1 number@c + f2 Jz@q + h destroy@c Jp@q + h create@c Jm@q"
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = c + q
    t = s.JC(g, c, q)
    s.totalHamiltonian
    t.frequency = h
    c.dimension = d2
    return s.totalHamiltonian
def case_jaynes_cummings_copied():
    "H | c:d1 q:2 | f1 number@c + f2 Jz@q + h destroy@c Jp@q + h create@c Jm@q"
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = c + q
    s.JC(g, c, q).frequency = h
    return s.copy().totalHamiltonian
def case_tavis_cummings():
    "H | a:2 b:2 c:d1 | f1 Jz@a + f2 Jz@b + f3 number@c + g destroy@c Jp@a + g create@c Jm@a + h destroy@c Jp@b + h create@c Jm@b"
    a = Qubit(frequency=f1)
    b = Qubit(frequency=f2)
    c = Cavity(frequency=f3, dimension=d1)
    s = QuantumSystem(subSys=[a, b, c])
    s.JC(g, a, c)
    s.JC(h, c, b)
    return s.totalHamiltonian
def case_other_qubit_operator():
    "H | c:d1 q:2 | f1 number@c + f2 sigmaz@q + g destroy@c Jp@q + g create@c Jm@q"
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2, operator=sigmaz)
    s = c + q
    s.JC(g, c, q)
    return s.totalHamiltonian
def case_rabi():
    "H | q:2 c:d1 | f2 Jz@q + f1 number@c + g destroy@c sigmax@q + g create@c sigmax@q"
    q = Qubit(frequency=f2)
    c = Cavity(frequency=f1, dimension=d1)
    s = q + c
    s.Rabi(g, c, q)
    return s.totalHamiltonian
def case_dicke():
    "H | c:d1 q:n1 | f1 number@c + f2 Jz@q + g destroy@c Jx@q + g create@c Jx@q"
    c = Cavity(frequency=f1, dimension=d1)
    q = Spin(frequency=f2, dimension=n1)
    s = c + q
    s.Dicke(g, q, c)
    return s.totalHamiltonian
def case_coupling_of_one_compound():
    "H | c:d1 q:2 | g destroy@c Jp@q + g create@c Jm@q"
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = c + q
    return s.JC(g, c, q).totalHamiltonian
def case_removed_sub_system():
    "H | a:d1 c:d3 | f1 number@a + f3 number@c + g create@a destroy@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b, c])
    s.createTerm(qSystem=[a, c], operator=[create, destroy], frequency=g)
    s.createTerm(qSystem=[a, b], operator=[create, destroy], frequency=h)
    s.totalHamiltonian
    s.removeSubSys(b)
    return s.totalHamiltonian
def case_removed_system_alone():
    "H | b:d2 | f2 number@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b, c])
    s.totalHamiltonian
    s.removeSubSys(b)
    return b.totalHamiltonian
def case_removed_and_added_again():
    "H | a:d1 c:d3 b:d2 | f1 number@a + f2 number@b + f3 number@c + g create@b destroy@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b, c])
    s.totalHamiltonian
    s.removeSubSys(b)
    s.addSubSys(b)
    s.createTerm(qSystem=[c, b], operator=[destroy, create], frequency=g)
    return s.totalHamiltonian
def case_removed_nested_composite():
    "H | a:d1 b:d2 | f1 number@a + f2 number@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b])
    S = QuantumSystem(subSys=[c, s])
    S.totalHamiltonian
    S.removeSubSys(s)
    return s.totalHamiltonian
def case_remainder_of_nested_composite():
    "H | c:d3 e:d4 | f3 number@c + f4 number@e"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    e = Cavity(frequency=f4, dimension=d4)
    s = QuantumSystem(subSys=[a, b])
    S = QuantumSystem(subSys=[c, s, e])
    S.totalHamiltonian
    S.removeSubSys(s)
    return S.totalHamiltonian
def case_removed_term():
    "H | a:d1 b:d2 | f1 number@a + f2 number@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = QuantumSystem(subSys=[a, b])
    t = s.createTerm(qSystem=[a, b], operator=[create, destroy], frequency=g)
    s.totalHamiltonian
    s.removeTerm(t)
    return s.totalHamiltonian
def case_multiple_of_a_system():
    "H | a:d1 b:d1 c:d1 | f1 number@a + f1 number@b + f1 number@c"
    s = 3*Cavity(frequency=f1, dimension=d1)
    return s.totalHamiltonian
def case_sum_with_itself():
    "H | a:d1 b:d1 | f1 number@a + f1 number@b + f2 number@a^2 + f2 number@b^2"
    a = Cavity(frequency=f1, dimension=d1)
    a.createTerm(operator=number, order=2, frequency=f2)
    s = QuantumSystem(subSys=[a, a.copy()])
    return s.totalHamiltonian
def case_copy_of_composite():
    "H | a:d1 b:d2 | f1 number@a + f2 number@b + g create@a^n1 destroy@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = a + b
    s.createTerm(qSystem=[b, a], operator=[destroy, create], order=[1, n1], frequency=g)
    return s.copy().totalHamiltonian
def case_copies_side_by_side():
    "H | a:d1 b:d2 c:d1 e:d2 | f1 number@a + f2 number@b + g create@a destroy@b + f1 number@c + f2 number@e + g create@c destroy@e + h number@b number@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = a + b
    s.createTerm(qSystem=[b, a], operator=[destroy, create], frequency=g)
    t = s.copy()
    S = QuantumSystem(subSys=[s, t])
    S.createTerm(qSystem=[b, list(t.subSys.values())[0]], operator=[number, number], frequency=h)
    return S.totalHamiltonian
def case_copy_of_nested():
    "H | a:d1 q:2 c:d3 | f1 number@a + f2 Jz@q + f3 number@c + g sigmap@q destroy@c + h create@a sigmam@q"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, q])
    s.createTerm(qSystem=[a, q], operator=[create, sigmam], frequency=h)
    S = QuantumSystem(subSys=[s, c])
    S.createTerm(qSystem=[q, c], operator=[sigmap, destroy], frequency=g)
    return S.copy().totalHamiltonian
def case_term_on_composite():
    "H | a:d1 b:d2 | f1 number@a + f2 number@b + g number@a,b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = a + b
    s.createTerm(operator=number, frequency=g)
    return s.totalHamiltonian
def case_zero_frequency():
    "H | a:d1 q:2 | f1 number@a + g create@a sigmam@q"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=0)
    s = a + q
    s.createTerm(qSystem=[a, q], operator=[create, sigmam], frequency=g)
    return s.totalHamiltonian
def case_coupling_reassigned():
    "H | a:d1 b:d2 c:d3 | f1 number@a + f2 number@b + f3 number@c + h number@b^n1 create@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b, c])
    t = s.createTerm(qSystem=[a, b], operator=[create, destroy], frequency=g)
    s.totalHamiltonian
    t.qSystem = [c, b]
    t.operator = [create, number]
    t.order = [1, n1]
    t.frequency = h
    return s.totalHamiltonian
def case_one_part_of_coupling():
    "H | a:d1 b:d2 | h create@a destroy@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    s = QuantumSystem(subSys=[a, b])
    t = s.createTerm(qSystem=[a, b], operator=[create, destroy], frequency=h)
    return t.totalHamiltonian
def case_added_by_class():
    "H | a:d1 q:2 b:d2 | f1 number@a + f2 Jz@q + f3 number@b"
    s = QuantumSystem()
    s.addSubSys(Cavity, frequency=f1, dimension=d1)
    s.addSubSys(Qubit, frequency=f2)
    s.addSubSys([Cavity(frequency=f3, dimension=d2)])
    return s.totalHamiltonian
def case_composite_added_to_itself():
    "H | a:d1 b:d2 c:d1 e:d2 | f1 number@a + f2 number@b + g create@a destroy@b + f1 number@c + f2 number@e + g create@c destroy@e"
    s = Cavity(frequency=f1, dimension=d1) + Cavity(frequency=f2, dimension=d2)
    s.createTerm(qSystem=list(s.subSys.values()), operator=[create, destroy], frequency=g)
    return (s + s).totalHamiltonian
def case_multiple_of_a_composite():
    "H | a:d1 b:d2 c:d1 e:d2 | f1 number@a + f2 number@b + g create@a destroy@b + f1 number@c + f2 number@e + g create@c destroy@e"
    s = Cavity(frequency=f1, dimension=d1) + Cavity(frequency=f2, dimension=d2)
    s.createTerm(qSystem=list(s.subSys.values()), operator=[create, destroy], frequency=g)
    return (2*s).totalHamiltonian
def case_composite_plus_system():
    "H | a:d1 b:d2 c:d3 | f1 number@a + f2 number@b + f3 number@c + g create@a destroy@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b])
    t = s + c
    t.createTerm(qSystem=[a, c], operator=[create, destroy], frequency=g)
    return t.totalHamiltonian
def case_two_composites_added():
    "H | a:d1 b:d2 c:d3 e:d4 | f1 number@a + f2 number@b + f3 number@c + f4 number@e + g create@a destroy@e"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    e = Cavity(frequency=f4, dimension=d4)
    t = (a + b) + (c + e)
    t.createTerm(qSystem=[a, e], operator=[create, destroy], frequency=g)
    return t.totalHamiltonian
def case_removed_from_deep_inside():
    "H | c:d3 a:d1 q:2 | f3 number@c + f1 number@a + f4 Jz@q + g create@c sigmam@q"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    q = Qubit(frequency=f4)
    s = QuantumSystem(subSys=[a, b])
    S = QuantumSystem(subSys=[c, s, q])
    S.createTerm(qSystem=[c, q], operator=[create, sigmam], frequency=g)
    S.totalHamiltonian
    S.removeSubSys(b)
    return S.totalHamiltonian
def case_replaced_after_removal():
    "H | a:d1 c:d3 e:d4 | f1 number@a + f3 number@c + f4 number@e + g create@c destroy@e"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b, c])
    s - b
    e = Cavity(frequency=f4, dimension=d4)
    s.addSubSys(e)
    s.createTerm(qSystem=[c, e], operator=[create, destroy], frequency=g)
    return s.totalHamiltonian
def case_moved_to_another_composite():
    "H | c:d3 b:d2 | f3 number@c + f2 number@b + g create@b destroy@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b])
    s.totalHamiltonian
    s.removeSubSys(b)
    t = QuantumSystem(subSys=[c])
    t.addSubSys(b)
    t.createTerm(qSystem=[b, c], operator=[create, destroy], frequency=g)
    return t.totalHamiltonian
def case_parts_changed_afterwards():
    "H | a:d1 p:d3 b:d2 | f7 create@a^n2 + f8 Jx@p + f9 destroy@b"
    a = Cavity(frequency=f1, dimension=d1)
    p = Spin(frequency=f2, dimension=d5)
    b = Cavity(frequency=f3, dimension=d2)
    s = QuantumSystem(subSys=[a, p, b])
    s.totalHamiltonian
    a.operator = create
    a.order = n2
    a.frequency = f7
    p.operator = Jx
    p.dimension = d3
    p.frequency = f8
    b.frequency = f9
    b.operator = destroy
    return s.totalHamiltonian
def case_spin_changed_by_j():
    "H | a:d1 p:4 b:d2 | f1 number@a + f2 Jz@p + f3 number@b + g create@b Jm@p"
    a = Cavity(frequency=f1, dimension=d1)
    p = Spin(frequency=f2, jValue=0.5)
    b = Cavity(frequency=f3, dimension=d2)
    s = QuantumSystem(subSys=[a, p, b])
    s.createTerm(qSystem=[p, b], operator=[Jm, create], frequency=g)
    s.totalHamiltonian
    p.jValue = 1.5
    return s.totalHamiltonian
def case_dimension_changed_twice():
    "H | a:d6 b:d5 c:d3 | f1 number@a + f2 number@b + f3 number@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b, c])
    b.dimension = d4
    a.dimension = d6
    b.dimension = d5
    return s.totalHamiltonian
def case_dimension_changed_while_nested_twice():
    "H | e:d4 a:d6 b:d2 c:d3 | f4 number@e + f1 number@a + f2 number@b + f3 number@c + g number@e number@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    e = Cavity(frequency=f4, dimension=d4)
    s = QuantumSystem(subSys=[a, b])
    t = QuantumSystem(subSys=[s, c])
    S = QuantumSystem(subSys=[e, t])
    S.createTerm(qSystem=[c, e], operator=[number, number], frequency=g)
    S.totalHamiltonian
    a.dimension = d6
    return S.totalHamiltonian
def case_nested_extended_after_couplings():
    "H | a:d1 b:d2 e:d4 c:d3 | f1 number@a + f2 number@b + f4 number@e + f3 number@c + g create@a destroy@c"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    e = Cavity(frequency=f4, dimension=d4)
    s = QuantumSystem(subSys=[a, b])
    S = QuantumSystem(subSys=[s, c])
    S.createTerm(qSystem=[a, c], operator=[create, destroy], frequency=g)
    S.totalHamiltonian
    s.addSubSys(e)
    return S.totalHamiltonian
def case_composite_without_parts():
    "H | a:d1 b:d2 | f1 number@a + f2 number@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[c])
    s.totalHamiltonian
    s.resetSubSys()
    s.addSubSys([a, b])
    return s.totalHamiltonian
def case_positions_of_operators():
    "H | a:d1 b:d2 c:d3 | 1 create@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b, c])
    b._compositeOperator = create
    return b._compositeOperator[create]
def case_position_of_operator_after_dimension():
    "H | a:d5 b:d2 c:d3 | 1 create@b"
    a = Cavity(frequency=f1, dimension=d1)
    b = Cavity(frequency=f2, dimension=d2)
    c = Cavity(frequency=f3, dimension=d3)
    s = QuantumSystem(subSys=[a, b, c])
    b._compositeOperator = create
    b._compositeOperator
    a.dimension = d5
    return b._compositeOperator[create]
def case_propagator_after_change():
    "U dt | a:d1 q:2 | f1 number@a + f3 Jz@q + h create@a sigmam@q"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = a + q
    t = s.createTerm(qSystem=[a, q], operator=[create, sigmam], frequency=g)
    s.simTotalTime = T
    s.simStepSize = dt
    s.unitary()
    q.frequency = f3
    t.frequency = h
    return s.unitary()
def case_propagator_of_a_system():
    "U dt | c:d1 | f1 number@c"
    c = Cavity(frequency=f1, dimension=d1)
    c.simTotalTime = T
    c.simStepSize = dt
    return c.unitary()
def case_propagator_of_a_composite():
    "U dt/n7 | a:d1 q:2 | f1 number@a + f2 Jz@q + g create@a sigmam@q"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = a + q
    s.createTerm(qSystem=[a, q], operator=[create, sigmam], frequency=g)
    s.simTotalTime = T
    s.simStepSize = dt
    s.simSamples = n7
    return s.unitary()
def case_propagator_with_ratio():
    "U dt*r | a:d1 q:2 | f1 number@a + f2 Jz@q"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = a + q
    s.simTotalTime = T
    s.simStepSize = dt
    P = freeEvolution(system=s, ratio=r)
    return P.unitary()
def case_propagator_of_a_sub_system():
    "U dt | a:d1 q:2 b:d2 | f2 Jz@q"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    b = Cavity(frequency=f3, dimension=d2)
    s = a + q + b
    q.simTotalTime = T
    q.simStepSize = dt
    return q.unitary()
def case_state_of_a_system():
    "state | d1:n1"
    c = Cavity(frequency=f1, dimension=d1)
    c.initialState = n1
    return c.initialState
def case_state_of_a_composite():
    "state | d1:n1 2:0 d2:n2"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    b = Cavity(frequency=f3, dimension=d2)
    s = a + q + b
    s.initialState = [n1, 0, n2]
    return s.initialState
def case_state_from_sub_systems():
    "state | d1:n1 2:1 d2:n2"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    b = Cavity(frequency=f3, dimension=d2)
    b.initialState = n2
    a.initialState = n1
    q.initialState = 1
    s = QuantumSystem(subSys=[a, q, b])
    return s.initialState
def case_state_of_one_system_replaced():
    "state | d1:n1 2:1 d2:n3"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    b = Cavity(frequency=f3, dimension=d2)
    s = a + q + b
    s.initialState = [n1, 1, n2]
    s.initialState
    b.initialState = n3
    return s.initialState
def case_state_of_nested():
    "state | d1:n1 2:1 d2:n2 d3:n3"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    b = Cavity(frequency=f3, dimension=d2)
    c = Cavity(frequency=f4, dimension=d3)
    S = QuantumSystem(subSys=[QuantumSystem(subSys=[a, q]), QuantumSystem(subSys=[b, c])])
    S.initialState = [[n1, 1], [n2, n3]]
    return S.initialState
def case_state_of_part_of_nested_replaced():
    "state | d3:n3 d1:n4 2:0"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    c = Cavity(frequency=f4, dimension=d3)
    S = QuantumSystem(subSys=[c, QuantumSystem(subSys=[a, q])])
    S.initialState = [n3, [n1, 0]]
    S.initialState
    a.initialState = n4
    return S.initialState
def case_state_of_nested_from_replaced_parts():
    "state | d3:n3 d1:n4 2:0"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    c = Cavity(frequency=f4, dimension=d3)
    s = QuantumSystem(subSys=[a, q])
    S = QuantumSystem(subSys=[c, s])
    q.initialState = 0
    a.initialState = n1
    c.initialState = n3
    S.initialState
    a.initialState = n4
    return S.initialState
def case_state_of_inner_composite_replaced():
    "state | d3:n3 d1:n4 2:1"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    c = Cavity(frequency=f4, dimension=d3)
    s = QuantumSystem(subSys=[a, q])
    S = QuantumSystem(subSys=[c, s])
    S.initialState = [n3, [n1, 0]]
    S.initialState
    s.initialState = [n4, 1]
    return S.initialState
def case_state_of_nested_from_parts():
    "state | d3:n3 d1:n1 2:0"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    c = Cavity(frequency=f4, dimension=d3)
    s = QuantumSystem(subSys=[a, q])
    S = QuantumSystem(subSys=[c, s])
    q.initialState = 0
    a.initialState = n1
    c.initialState = n3
    return S.initialState
def case_state_with_populations():
    "state | d1:{n1:g1,n2:g2} 2:[0,1]"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = a + q
    s.initialState = [{n1: g1, n2: g2}, [0, 1]]
    return s.initialState
def case_state_with_amplitudes():
    "state | d1:{n1:g1,n2:g2}_amplitudes 2:1"
    a = Cavity(frequency=f1, dimension=d1, _inpCoef=True)
    q = Qubit(frequency=f2)
    s = a + q
    s.initialState = [{n1: g1, n2: g2}, 1]
    return s.initialState
def case_state_after_dimension():
    "state | d5:n1 2:1"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = a + q
    s.initialState = [n1, 1]
    s.initialState
    a.dimension = d5
    return s.initialState
def case_state_of_the_copy():
    "state | d1:n1 2:1"
    a = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = a + q
    s.initialState = [n1, 1]
    return s.copy().initialState
'''


def shapes(leaves, depth):
    """nested lists over consecutive leaves"""
    def go(i, j, d):
        # sequences of children covering leaves i..j
        if i == j:
            yield ()
            return
        for k in range(i + 1, j + 1):
            firsts = [i] if k == i + 1 else []
            if d > 0:
                firsts += [c for c in go(i, k, d - 1)]
            for f in firsts:
                for rest in go(k, j, d):
                    yield (f,) + rest
    return [s for s in go(0, leaves, depth) if len(s) > 1]


def program(name, shape, outer, change):
    """a client program that builds a tree of systems, couples every pair of leaves, evaluates, changes something and evaluates again"""
    leaves = [x for x in flat(shape)]
    n = len(leaves)
    dims = {i: f'd{i + 1}' for i in leaves}
    body = [f'x{i} = Cavity(frequency=f{i + 1}, dimension=d{i + 1})' for i in leaves]
    count = [0]
    groups = []

    def build(s, top):
        v = 'S' if top else f's{count[0]}'
        count[0] += 1
        groups.append((v, s))
        body.append(f'{v} = QuantumSystem()')
        for c in s:
            if isinstance(c, int):
                body.append(f'{v}.addSubSys(x{c})')
            elif outer:
                w = f's{count[0]}'
                # the empty part is added first and filled afterwards
                body.append(f'{w} = QuantumSystem()')
                body.append(f'{v}.addSubSys({w})')
                fill(w, c)
            else:
                w = build(c, False)
                body.append(f'{v}.addSubSys({w})')
        return v

    def fill(v, s):
        count[0] += 1
        groups.append((v, s))
        for c in s:
            if isinstance(c, int):
                body.append(f'{v}.addSubSys(x{c})')
            else:
                w = f's{count[0]}'
                body.append(f'{w} = QuantumSystem()')
                body.append(f'{v}.addSubSys({w})')
                fill(w, c)
    build(shape, True)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for i, j in pairs:
        body.append(f'S.createTerm(qSystem=[x{j}, x{i}], operator=[destroy, create], frequency=g{i}{j})')
    kind, arg = change
    order = list(leaves)
    extra = ''
    if kind:
        body.append('S.totalHamiltonian')
    if kind == 'dimension':
        body.append(f'x{arg}.dimension = d9')
        dims[arg] = 'd9'
    elif kind == 'removal':
        body.append(f'S.removeSubSys(x{arg})')
        order.remove(arg)
        pairs = [q for q in pairs if arg not in q]
    elif kind == 'extension':
        v, s = groups[arg]
        body.append('y = Cavity(frequency=f8, dimension=d8)')
        body.append(f'{v}.addSubSys(y)')
        last = max(flat(s))
        order.insert(order.index(last) + 1, 'y')
        dims['y'] = 'd8'
        extra = ' + f8 number@y'
    lay = ' '.join(('y' if i == 'y' else f'x{i}') + ':' + dims[i] for i in order)
    want = ' + '.join([f'f{i + 1} number@x{i}' for i in order if i != 'y'] + [f'g{i}{j} create@x{i} destroy@x{j}' for i, j in pairs]) + extra
    return f'def case_{name}():\n    "H | {lay} | {want}"\n    ' + '\n    '.join(body + ['return S.totalHamiltonian']) + '\n', len(groups)


def flat(s):
    for x in s:
        if isinstance(x, int):
            yield x
        else:
            yield from flat(x)


def written(s):
    return '-'.join(str(x + 1) if isinstance(x, int) else '(' + written(x) + ')' for x in s)


def trees(tier):
    """{label: program} of all trees up to a number of leaves, both orders of building and all changes"""
    out = {}
    for n in ((2, 3) if tier == 'quick' else (2, 3, 4)):
        for s in shapes(n, 1 if tier == 'quick' or n == 4 else 2):
            nested = any(not isinstance(x, int) for x in s)
            for outer in ((False, True) if nested else (False,)):
                groups = program('x', s, outer, ('', 0))[1]
                changes = [('', 0)] + [('dimension', i) for i in range(n)] + [('removal', i) for i in range(n)] + [('extension', g) for g in range(groups if n < 4 else 0)]
                if tier == 'quick':
                    changes = changes[:1] + [c for c in changes[1:] if c[0] != 'dimension' or c[1] == n // 2]
                for kind, arg in changes:
                    label = f'{"outer" if outer else "inner"} parts first, {written(s)}' + \
                        (f', {kind} of {arg + 1 if kind != "extension" else "composite " + str(arg + 1)}' if kind else '')
                    out[label] = program('tree', s, outer, (kind, arg))[0]
    return out


def cases(source):
    out = {}
    for n in ast.parse(source).body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith('case_'):
            out[n.name] = ast.get_docstring(n)
    return out


def check(prog, tier):
    rep = Report('C29', prog, tier, RULE,
                 'Every client program was followed to one expression, whose operators were located among the systems by the dimensions before and '
                 'after them.',
                 ['dimensions, strengths, orders and inputs in general position', 'powers, products, Kronecker products and elementary operators of the toolbox '
                  'mean what C03, C04 and C27 establish', 'integer quotients of dimensions are exact'])
    jobs = [(guarded, (prog, CASES, n, s)) for n, s in cases(CASES).items()]
    made = trees(tier)
    jobs += [(guarded, (prog, src, 'case_tree', cases(src)['case_tree'], label)) for label, src in made.items()]
    rep.count('written programs', len(cases(CASES)))
    rep.count('generated programs', len(made))
    parallel(rep, jobs, 20)
    return rep.finish(60)

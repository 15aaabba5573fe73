"""C02: the requested (or given) matrix format is the format of the result, on every path."""
from .common import *

RULE = ('format inference: the result of every path of a function that offers a format, in the lattice {sparse, array, numpy matrix, scalar}, '
        'against the requested format; super-operators and propagators against the format of their operator')
TB = 'QuantumToolbox.'
S, D, M, N = 'S', 'D', 'M', 'n'     # scipy sparse, numpy array, numpy matrix, number
NAME = {S: 'a scipy sparse matrix', D: 'a numpy array', M: 'a numpy matrix', N: 'a number'}

SPARSE_MAKERS = {'csc_matrix', 'csr_matrix', 'coo_matrix', 'lil_matrix', 'dok_matrix', 'bsr_matrix', 'dia_matrix', 'identity', 'eye',
                 'diags', 'spdiags', 'kron', 'kronsum', 'block_diag', 'bmat', 'hstack', 'vstack', 'random', 'rand', 'tril', 'triu'}
DENSE_MAKERS = {'array', 'zeros', 'ones', 'empty', 'full', 'identity', 'eye', 'arange', 'linspace', 'diag', 'outer', 'kron', 'tile',
                'reshape', 'concatenate', 'hstack', 'vstack', 'block', 'zeros_like', 'ones_like', 'asarray', 'ascontiguousarray'}
KEEP_CALLS = {'conj', 'conjugate', 'transpose', 'real', 'imag', 'copy', 'negative', 'abs', 'round', 'around', 'squeeze', 'sqrt', 'exp',
              'cos', 'sin'}
KEEP_METHODS = {'transpose', 'conj', 'conjugate', 'getH', 'copy', 'astype', 'reshape', 'power', 'sqrt', 'resize', 'round', '__neg__'}
SPARSE_ONLY = {'tocsc', 'tocsr', 'tocoo', 'tolil', 'todok', 'tobsr', 'todia'}
SPARSE_TYPES = {'scipy.sparse.spmatrix', 'scipy.sparse.csc_matrix', 'scipy.sparse.csr_matrix', 'scipy.sparse.base.spmatrix',
                'scipy.sparse._matrix.spmatrix'}
DENSE_TYPES = {'numpy.ndarray', 'numpy.matrix'}


class Unk(Exception):
    pass


class Err(Exception):
    """the operation fails for a value of this format"""


class Formats:
    def __init__(self, prog, given):
        self.prog = prog
        self.given = given          # format of the symbols that stand for matrices
        self.facts = {}
        self.memo = {}

    # ---- facts of a path about the format of a term
    def restrict(self, facts, t, fs):
        out = set(fs)
        for k, v in facts:
            if k[0] == 'K' and self.is_test(k[1]) and k[1][2][0] == t and v in ({'T'}, {'F'}):
                out &= {S} if v == {'T'} else {D, M, N}
            if k[0] in ('I+', 'I-') and k[1] == t:
                ts = {x[1] for x in v if x[0] == 'ext'}
                sp, de = ts & SPARSE_TYPES, ts & DENSE_TYPES
                if k[0] == 'I+' and ts and ts == sp:
                    out &= {S}
                elif k[0] == 'I+' and ts and ts == de:
                    out &= {D, M}
                elif k[0] == 'I+' and ts and all(x.startswith('builtins.') and x != 'builtins.object' for x in ts):
                    out &= {N}
                elif k[0] == 'I-' and ts & {'scipy.sparse.spmatrix', 'scipy.sparse._matrix.spmatrix', 'scipy.sparse.base.spmatrix'}:
                    out -= {S}
                elif k[0] == 'I-' and 'numpy.ndarray' in ts:
                    out -= {D, M}
            if isinstance(v, bool) and self.is_test(k) and k[2][0] == t:
                out &= {S} if v else {D, M, N}
        return frozenset(out)

    @staticmethod
    def is_test(t):
        return isinstance(t, tuple) and len(t) == 4 and t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'ext' and \
            t[1][1].startswith('scipy.sparse') and t[1][1].rsplit('.', 1)[-1] in ('issparse', 'isspmatrix') and len(t[2]) == 1

    def feasible(self, facts, new=None):
        """the format tests that the path assumes can come out like that"""
        for k, v in facts if new is None else new:
            t = None
            if k[0] == 'K' and self.is_test(k[1]):
                t = k[1][2][0]
            elif k[0] in ('I+', 'I-'):
                t = k[1]
            elif self.is_test(k):
                t = k[2][0]
            if t is None:
                continue
            try:
                if not self.restrict(facts, t, self.fmt(t, facts)):
                    return False
            except (Unk, Err):
                pass
        return True

    # ---- elements of an iterable
    def elems(self, t, facts):
        if t[0] in ('L', 'tup', 'S'):
            out = set()
            for x in t[1:]:
                if x[0] == 'star':
                    out |= self.elems(x[1], facts)
                else:
                    out |= self.fmt(x, facts)
            return frozenset(out)
        if t[0] == 'map':
            out = set()
            for fs, body in t[1]:
                allf = tuple(facts) + tuple(fs)
                if self.feasible(allf, fs):
                    out |= self.fmt(body, allf)
            return frozenset(out)
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('builtins.list', 'builtins.tuple', 'builtins.reversed', 'builtins.iter') \
                and t[2]:
            return self.elems(t[2][0], facts)
        if t[0] in ('range', 'keys', 'values', 'items'):
            return frozenset({N})
        if t[0] == 'zip':
            out = set()
            for x in t[1:]:
                out |= self.elems(x, facts)
            return frozenset(out)
        if t in self.given:
            return self.given[t]
        if t[0] == 'content' and t[1] in self.given:
            return self.given[t[1]]
        if t[0] == 'op' and self.listy(t):
            return self.fmt(t, facts)
        if t[0] == 'elem':
            return self.fmt(t, facts)
        raise Unk(f'elements of {show(t)[:80]}')

    @staticmethod
    def listy(t):
        return t[1] in ('completeBasis', 'completeBasisMat')

    def fmt(self, t, facts=()):
        key = (t, facts)
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self.restrict(facts, t, self.fmt0(t, facts))
        except (Unk, Err) as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def fmt0(self, t, facts):
        h = t[0]
        if h == 'c':
            return frozenset({N})
        if t in self.given:
            return self.given[t]
        if h == 'ext' and t[1] in ('numpy.pi', 'math.pi', 'numpy.e', 'math.e'):
            return frozenset({N})
        if h == 'sym':
            return frozenset({N})
        if h == 'op':
            return self.op(t, facts)
        if h == 'un':
            return self.fmt(t[2], facts)
        if h == 'bin':
            return self.each2(lambda a, b: self.binary(t[1], a, b, t), t[2], t[3], facts)
        if h == 'ite':
            return self.fmt(t[2], facts) | self.fmt(t[3], facts)
        if h in ('L', 'tup', 'map'):
            return self.elems(t, facts)
        if h == 'elem':
            return self.elems(t[1], facts)
        if h in ('range', 'len'):
            return frozenset({N})
        if h == 'idx':
            b = t[1]
            if b[0] in ('L', 'tup', 'map') or b in self.given or (b[0] == 'op' and self.listy(b)):
                return self.elems(b, facts)
            if b[0] == 'attr' and b[2] == 'shape':
                return frozenset({N})
            if self.fmt(b, facts) == {N}:
                return frozenset({N})
            raise Unk(f'item {show(t)[:80]}')
        if h in ('sum', 'fold'):
            return self.fold(t, facts)
        if h == 'attr':
            return frozenset(x for f in self.fmt(t[1], facts) for x in self.attr(f, t[2], t))
        if h == 'mcall':
            return self.method(t, facts)
        if h == 'call':
            return self.call(t, facts)
        raise Unk(f'{h} {show(t)[:80]}')

    def each2(self, f, a, b, facts):
        return frozenset(f(x, y) for x in self.fmt(a, facts) for y in self.fmt(b, facts))

    def binary(self, op, a, b, t):
        if op in ('@',):
            if N in (a, b):
                raise Unk(f'matrix product with a number {show(t)[:80]}')
            if M in (a, b):
                return M
            return S if a == b == S else D
        if op in ('+', '-'):
            if N in (a, b):
                return a if b == N else b
            return a if a == b else M
        if op == '*':
            if N in (a, b):
                return a if b == N else b
            if M in (a, b):
                return M
            return S if a == b == S else D
        if op == '/':
            if a == S and b in (D, M):
                return M if b == M else D
            return a if b == N else (D if a == N else a)
        if op in ('**', '//', '%'):
            if a == b == N:
                return N
            return a
        raise Unk(f'operator {op}')

    def attr(self, f, name, t):
        if name in ('T', 'H', 'real', 'imag'):
            if name == 'H' and f == D:
                raise Err('a numpy array has no .H')
            return (f,)
        if name == 'A':
            if f == D:
                raise Err(f'.A of a numpy array: {show(t)[:120]}')
            return (D,)
        if name in ('shape', 'size', 'ndim', 'dtype', 'nnz', 'data', 'indices', 'indptr'):
            return (N,) if name in ('shape', 'size', 'ndim', 'dtype', 'nnz') else (D,)
        raise Unk(f'attribute {name}')

    def method(self, t, facts):
        name = t[2]
        out = set()
        for f in self.fmt(t[1], facts):
            if name in ('toarray', 'todense'):
                if f != S:
                    raise Err(f'.{name}() of {NAME[f]}: {show(t)[:120]}')
                out.add(D if name == 'toarray' else M)
            elif name in SPARSE_ONLY:
                if f != S:
                    raise Err(f'.{name}() of {NAME[f]}: {show(t)[:120]}')
                out.add(S)
            elif name in KEEP_METHODS:
                out.add(f)
            elif name in ('dot', '__matmul__') and len(t[3]) == 1:
                out |= {self.binary('@', f, g, t) if g != N else f for g in self.fmt(t[3][0], facts)}
            elif name == 'multiply' and f == S:
                out.add(S)
            elif name == 'diagonal':
                out.add(D)
            elif name in ('sum', 'trace', 'mean', 'max', 'min', 'lower', 'upper', 'item'):
                if name in ('sum', 'mean', 'max', 'min') and (t[3] or t[4]):
                    raise Unk('reduction along an axis')
                out.add(N)
            elif name == 'flatten' and f == D:
                out.add(D)
            else:
                raise Unk(f'method {name}')
        return frozenset(out)

    def call(self, t, facts):
        f = t[1]
        if f in self.given:                     # an operator function given by the user: its last argument is the format
            last = (t[2] or (None,))[-1]
            if t[3]:
                last = dict(t[3]).get('sparse', last)
            return {TRUE: frozenset({S}), FALSE: frozenset({D})}.get(last, frozenset({S, D}) if last == ('sym', 'sparse') else
                                                                     frozenset({S}))
        if f == 'quanguru.' + TB + 'linearAlgebra._matPower' and t[2]:
            return self.fmt(t[2][0], facts)         # induction: a shorter product of the same matrix
        if f[0] != 'ext':
            raise Unk(f'call of {show(f)[:60]}')
        q = f[1]
        mod, _, nm = q.rpartition('.')
        if q in ('scipy.sparse.issparse', 'scipy.sparse.isspmatrix'):
            return frozenset({N})
        if q in ('scipy.sparse.linalg.expm', 'scipy.sparse.linalg.inv'):
            return self.fmt(t[2][0], facts)
        if q in ('scipy.sparse.linalg.norm', 'numpy.linalg.norm', 'scipy.linalg.norm', 'numpy.trace', 'numpy.prod', 'numpy.size',
                 'numpy.shape', 'numpy.ndim'):
            return frozenset({N})
        if mod.startswith('scipy.sparse') and nm in SPARSE_MAKERS:
            fm = dict(t[3]).get('format')
            return frozenset({S})
        if mod.startswith('scipy.linalg') and nm in ('expm', 'inv', 'sqrtm', 'logm'):
            fs = self.fmt(t[2][0], facts)
            if S in fs:
                raise Err(f'scipy.linalg.{nm} of a scipy sparse matrix')
            return frozenset({D})
        if mod == 'numpy' and nm in ('matrix', 'asmatrix', 'mat', 'bmat'):
            return frozenset({M})
        if mod == 'numpy' and nm in DENSE_MAKERS:
            if nm in ('array', 'asarray', 'kron', 'outer', 'reshape', 'diag') and t[2]:
                try:
                    if S in self.fmt(t[2][0], facts):
                        raise Err(f'numpy.{nm} of a scipy sparse matrix')
                except Unk:
                    pass
            return frozenset({D})
        if mod == 'numpy' and nm in ('dot', 'matmul') and len(t[2]) == 2:
            return self.each2(lambda a, b: self.binary('@', a, b, t), t[2][0], t[2][1], facts)
        if mod in ('numpy', 'builtins', 'math', 'cmath') and nm in KEEP_CALLS | {'abs', 'complex', 'float', 'int', 'pow', 'sinh', 'cosh'} \
                and t[2]:
            return self.fmt(t[2][0], facts)
        if q in ('builtins.sum', 'numpy.sum') and t[2]:
            fs = self.elems(t[2][0], facts)
            return self.summed(fs, t) if q == 'builtins.sum' else frozenset({N})
        if q in ('builtins.len', 'builtins.max', 'builtins.min', 'builtins.bool', 'builtins.isinstance', 'builtins.round'):
            return frozenset({N})
        if q in ('builtins.list', 'builtins.tuple'):
            return self.elems(t[2][0], facts) if t[2] else frozenset()
        raise Unk(f'call of {q}')

    def summed(self, fs, t):
        fs = set(fs)
        return frozenset(fs if len(fs) == 1 else {self.binary('+', a, b, t) for a in fs for b in fs})

    def fold(self, t, facts):
        if t[0] == 'sum':
            for x in t[1:]:
                if isinstance(x, tuple) and x and x[0] in ('map', 'L', 'tup', 'elem', 'sym', 'op', 'call'):
                    return self.summed(self.elems(x, facts), t)
        raise Unk(show(t)[:80])

    def op(self, t, facts):
        """a call kept whole: its format is the one its own obligation establishes"""
        kind, vals = t[2]
        if kind == 'sparse':
            return {TRUE: frozenset({S}), FALSE: frozenset({D})}.get(vals, frozenset({S, D}))
        if kind == 'same':
            fs = [self.fmt(x, facts) for x in vals]
            out = set()
            for f in fs:
                out |= f
            return frozenset(out)
        if kind == 'tensor':
            out = set()
            n = 0
            star = False
            for x in vals:
                if x[0] == 'star':
                    star = True
                    out |= self.elems(x[1], facts)
                else:
                    n += 1
                    out |= self.fmt(x, facts)
            if n > 1 or out == {S}:
                return frozenset({S})
            if star or n:
                return frozenset(({S} if star or N in out else set()) | (out - {N}))
        raise Unk(f'kept call {t[1]}')


def interp(prog, drop):
    I = Interp(prog, path_limit=3000)
    I.max_rec = 2

    def hook(I2, fn, args, kwargs, st, line):
        if not isinstance(fn, Func) or fn.is_lambda or not fn.module.name.startswith('quanguru.QuantumToolbox') or fn.name in drop:
            return None
        names = params_of(fn)
        if 'sparse' in names and not fn.name.startswith('_') and fn.cls is None:
            d = dict(zip(names, args))
            d.update(kwargs)
            s = st.copy()
            if d.get('compKetBase', NONE) != NONE:
                return None
            v = d.get('sparse')
            if v is None:
                v = default_of(fn, 'sparse')
            if v is None:
                return None
            v = I2.freeze(s, v)
            if v[0] == 'c' and v not in (TRUE, FALSE):
                v = FALSE if not v[2] else TRUE
            return [(s, ('op', fn.name, ('sparse', v)))]
        if fn.name == 'tensorProd':
            s = st.copy()
            return [(s, ('op', fn.name, ('tensor', tuple(I2.freeze(s, a) for a in args))))]
        return None
    def ext(I2, q, args, kwargs, st, line):
        if q.startswith('scipy.sparse') and q.rsplit('.', 1)[-1] in ('issparse', 'isspmatrix') and len(args) == 1 and \
                I2.freeze(st, args[0])[0] in ('tup', 'L', 'c'):
            return [(st, FALSE)]
        return None
    I.call_hook = hook
    I.ext_hook = ext
    return I


def default_of(fn, name):
    import ast
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    ds = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
    d = dict(zip(names, ds)).get(name)
    if d is None and name in [x.arg for x in a.kwonlyargs]:
        d = dict(zip([x.arg for x in a.kwonlyargs], a.kw_defaults)).get(name)
    if isinstance(d, ast.Constant) and isinstance(d.value, bool):
        return TRUE if d.value else FALSE
    return None


def leaf_sets(v, F, facts):
    """the matrices of a result (a list or tuple is checked member by member)"""
    if v[0] in ('L', 'tup'):
        for x in v[1:]:
            yield from leaf_sets(x, F, facts)
    else:
        yield v


def decide(rep, prog, f, args, kwargs, given, want, key, drop=()):
    label = f'{f.name}:{key}'
    with rep.guard(label):
        I = interp(prog, set(drop) | {f.name})
        for k in given:
            I.kinds[k] = frozenset('o')
        s0 = State()
        args = [I.new_list(s0, a) if a[0] == 'L' else a for a in args]
        outs = I.run(f, args, kwargs, s0)
        F = Formats(prog, {k: frozenset(v) if not isinstance(v, str) else frozenset({v}) for k, v in given.items()})
        n, unk = 0, None
        for st, v in outs:
            if isinstance(v, Raise):
                continue
            facts = tuple(st.facts.items())
            v = I.freeze(st, v)
            try:
                if not F.feasible(facts):
                    continue
                for x in leaf_sets(v, F, facts):
                    fs = F.fmt(x, facts)
                    if fs - {want}:
                        got = ' or '.join(NAME[y] for y in sorted(fs - {want}))
                        if len(fs) > 1 and want in fs:
                            raise Unk(f'may be {got}')
                        rep.bad(f'format:{f.name}:{key}', where(f), f'{f.name} ({key}) returns {got} instead of {NAME[want]}: '
                                f'{show(x)[:160]}')
                        return
                n += 1
            except Err as e:
                rep.bad(f'fails:{f.name}:{key}', where(f), f'{f.name} ({key}) fails: {e}')
                return
            except Unk as e:
                unk = e
        if unk is not None:
            rep.undecided(label, unk)
        elif n:
            rep.count('paths', n)
            rep.ok(label, f'{NAME[want]} on {n} path(s)')
        else:
            rep.undecided(label, 'no path returns')


def check(prog, tier='quick'):
    rep = Report('C02', prog, tier, RULE,
                 'Abstract interpretation of every toolbox function with a format parameter (found by its signature), called with the '
                 'format left out, sparse and dense, all other arguments symbolic, and of the super-operators and propagators for '
                 'operators of either format.',
                 assumptions=['operations of scipy and numpy return the format of their documentation',
                              'all matrices given to one call have the same format'])
    # constructors
    for f in prog.funcs.values():
        if f.is_lambda or f.cls is not None or not f.module.name.startswith('quanguru.QuantumToolbox'):
            continue
        names = params_of(f)
        if 'sparse' not in names or f.name.startswith('_'):
            continue
        rep.count('constructors')
        given = {}
        if 'op' in names:
            given[('sym', 'op')] = {S}
        others = [('sym', n) for n in names if n != 'sparse']
        dflt = default_of(f, 'sparse')
        if dflt is None:
            rep.undecided(f'{f.name}:default', 'no literal default')
        skip = {'compKetBase': NONE}
        base = tuple((n, skip.get(n, ('sym', n))) for n in names if n != 'sparse')
        for label, kw, want in (('sparse', (('sparse', TRUE),), S), ('dense', (('sparse', FALSE),), D),
                                ('default', (), S if dflt != FALSE else D)):
            decide(rep, prog, f, [], base + kw, given, want, label)
        if dflt == FALSE and f.name != 'UJC':
            rep.bad(f'default:{f.name}', where(f), f'{f.name} returns a numpy array unless sparse output is requested')
    # results in the format of the operator
    H, A, B, T, R = ('sym', 'H'), ('sym', 'A'), ('sym', 'B'), ('sym', 't'), ('sym', 'rate')

    def LST(*x):
        return ('L',) + x
    ev, op = TB + 'evolution.', TB + 'operators.'
    for fm, nm in ((S, 'sparse operator'), (D, 'dense operator')):
        g = {H: fm, A: fm, B: fm}
        rho = ('sym', 'rho')
        for key, args, kwargs in (
                (ev + '_preSO', [A], ()), (ev + '_postSO', [A], ()), (ev + '_prepostSO', [A], ()), (ev + '_prepostSO', [A, B], ()),
                (ev + 'dissipator', [A], ()), (ev + 'dissipator', [A, B], ()),
                (ev + 'Unitary', [H], ()), (ev + 'Unitary', [H, ('sym', 't')], ()),
                (ev + 'LiouvillianExp', [H, ('sym', 't')], ()),
                (op + 'parityEXP', [H], ()),
                (ev + 'Liouvillian', [H], ()), (ev + 'Liouvillian', [H, LST(A, B)], ()), (ev + 'Liouvillian', [H, LST(A), LST(R)], ()),
                (ev + 'Liouvillian', [NONE, LST(A), LST(R)], ()), (ev + 'Liouvillian', [NONE, LST(tup(A, B))], ()),
                (ev + 'LiouvillianExp', [H, T, LST(A, B), LST(R, R)], ()), (ev + 'LiouvillianExp', [H, T, LST(tup(A, B)), LST(R)], ()),
                (ev + 'LiouvillianExp', [NONE, T, LST(A), LST(R)], ()), (ev + 'LiouvillianExp', [NONE, T, LST(tup(A, B)), LST(R)], ()),
                (ev + 'LiouvillianExp', [H, T, LST(A), LST(R), FALSE], ()),
                (ev + 'LiouvillianExp', [NONE, T, LST(tup(A, B)), LST(R), FALSE], ()),
                (op + 'compositeOp', [A, ('c', 'int', 1), ('c', 'int', 1)], ()),
                (TB + 'linearAlgebra.hc', [A], ()), (TB + 'linearAlgebra.outerProd', [A], ()), (TB + 'linearAlgebra.outerProd', [A, B], ()),
                (TB + 'linearAlgebra._matMulInputs', [A, B], ()), (TB + 'linearAlgebra._matPower', [A, ('c', 'int', 3)], ()),
                (TB + 'states.normalise', [A], ()), (TB + 'states.mat2Vec', [A], ()), (TB + 'states.vec2Mat', [A], ()),
                (TB + 'states.densityMatrix', [A], ()), (TB + 'states.weightedSum', [('tup', A, B)], ()),
                (TB + 'states.weightedSum', [('tup', A, B), ('tup', ('sym', 'w1'), ('sym', 'w2'))], ()),
        ):
            with rep.guard(key):
                f = prog.fn(key)
                decide(rep, prog, f, args, kwargs, g, fm,
                       f'{nm}, arguments {", ".join(show(a) for a in args)}')
    return rep.finish(minimum=60)

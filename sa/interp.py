"""Path-partitioned abstract interpreter over the source of the analysed package.

The abstract domain is a Herbrand domain of value terms (nested tuples) plus an abstract heap, a set of path facts and
a trace of effects.  Calls to package code are inlined (so moving code into a helper does not change the result),
loops over unknown sequences are summarised once with havocked loop-carried state, branch conditions are recorded as
facts on canonical atoms.  Nothing of the analysed package is ever imported or executed, and no solver is involved.
"""
import ast
from .loader import Class, Func, Prop, AnalysisBroken

UNROLL = 12


class Unsupported(Exception):
    pass


class Limit(Unsupported):
    pass


class Raise:
    __slots__ = ('exc', 'line', 'implicit')

    def __init__(self, exc, line=0, implicit=False):
        self.exc, self.line, self.implicit = exc, line, implicit

    def __repr__(self):
        return f'Raise({self.exc})'


def C(v):
    return ('c', type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)
BOOL_EXT = {'scipy.sparse.issparse', 'scipy.sparse.isspmatrix', 'numpy.iscomplexobj', 'numpy.allclose', 'numpy.isclose',
            'os.path.isdir', 'os.path.exists', 'os.path.isfile'}
EMPTY_L = ('L',)
EMPTY_D = ('D',)


def is_c(t):
    return t[0] == 'c'


def tup(*vs):
    return ('tup',) + vs


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)
        elif isinstance(x, frozenset):
            st.extend(x)


def mentions(t, pred):
    for s in subterms(t):
        if s and isinstance(s[0], str) and pred(s):
            return True
    return False


def subst(t, f):
    """bottom-up rewriting; f(term)->term or None"""
    if not isinstance(t, tuple):
        return t
    n = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    if n and isinstance(n[0], str):
        r = f(n)
        if r is not None:
            return r
    return n


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    h = t[0]
    try:
        if h == 'c':
            return repr(t[2])
        if h == 'sym':
            return t[1]
        if h == 'obj':
            return f'<new#{t[1]}>'
        if h == 'attr':
            return f'{show(t[1])}.{t[2]}'
        if h == 'idx':
            return f'{show(t[1])}[{show(t[2])}]'
        if h == 'bin':
            return f'({show(t[2])} {t[1]} {show(t[3])})'
        if h == 'un':
            return f'{t[1]}{show(t[2])}'
        if h in ('ext', 'cls', 'fn', 'mod'):
            return t[1].split('.')[-1]
        if h == 'call':
            f = t[1] if isinstance(t[1], str) else show(t[1])
            return f'{f.split(".")[-1]}({", ".join([show(a) for a in t[2]] + [f"{k}={show(v)}" for k, v in t[3]])})'
        if h == 'mcall':
            return f'{show(t[1])}.{t[2]}({", ".join([show(a) for a in t[3]] + [f"{k}={show(v)}" for k, v in t[4]])})'
        if h in ('L', 'tup'):
            return '[' + ', '.join(show(x) for x in t[1:]) + ']'
        if h == 'elem':
            return f'each({show(t[1])})'
        if h == 'isnone':
            return f'{show(t[1])} is None'
        if h in ('eq', 'lt', 'is', 'in'):
            return f'{show(t[1])} {h} {show(t[2])}'
    except Exception:
        pass
    return '(' + ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in t) + ')'


class Layer:
    """dictionary with cheap copies: a shared base that is never written and a small top"""
    __slots__ = ('base', 'top')

    def __init__(self, d=None):
        self.base, self.top = {}, dict(d) if d else {}

    def copy(self):
        n = Layer.__new__(Layer)
        if len(self.top) > 48:
            b = dict(self.base)
            b.update(self.top)
            self.base, self.top = b, {}
        n.base, n.top = self.base, dict(self.top)
        return n

    def get(self, k, default=None):
        r = self.top.get(k, self)
        return self.base.get(k, default) if r is self else r

    def __getitem__(self, k):
        r = self.top.get(k, self)
        return self.base[k] if r is self else r

    def __setitem__(self, k, v):
        self.top[k] = v

    def __contains__(self, k):
        return k in self.top or k in self.base

    def setdefault(self, k, v):
        if k in self:
            return self[k]
        self.top[k] = v
        return v

    def whole(self):
        if not self.top:
            return self.base
        d = dict(self.base)
        d.update(self.top)
        return d

    def __delitem__(self, k):
        d = dict(self.base)
        d.update(self.top)
        del d[k]
        self.base, self.top = d, {}

    def pop(self, k, *default):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if default:
            return default[0]
        raise KeyError(k)

    def update(self, o):
        self.top.update(o.whole() if isinstance(o, Layer) else o)

    def items(self):
        return self.whole().items()

    def keys(self):
        return self.whole().keys()

    def values(self):
        return self.whole().values()

    def __iter__(self):
        return iter(self.whole())

    def __len__(self):
        return len(self.whole())

    def __eq__(self, o):
        return self.whole() == (o.whole() if isinstance(o, Layer) else o)


class State:
    __slots__ = ('store', 'facts', 'events')

    def __init__(self, store=None, facts=None, events=()):
        self.store = store if isinstance(store, Layer) else Layer(store)
        self.facts = facts if isinstance(facts, Layer) else Layer(facts)
        self.events = events

    def copy(self):
        return State(self.store.copy(), self.facts.copy(), self.events)

    def ev(self, *e):
        self.events = self.events + (e,)


class ObjInfo:
    __slots__ = ('kind', 'cls', 'site', 'args', 'kwargs', 'label')

    def __init__(self, kind, cls=None, site=None, args=(), kwargs=(), label=None):
        self.kind, self.cls, self.site, self.args, self.kwargs, self.label = kind, cls, site, args, kwargs, label


class Closure:
    __slots__ = ('func', 'frame', 'defaults', 'kwdefaults')

    def __init__(self, func, frame, defaults, kwdefaults):
        self.func, self.frame, self.defaults, self.kwdefaults = func, frame, defaults, kwdefaults


ALLK = frozenset('NTFzo')       # None, True, False, other falsy, other truthy
CANON_EXT = {
    'numpy.conjugate': 'numpy.conj', 'numpy.absolute': 'numpy.abs', 'numpy.core.multiarray.array': 'numpy.array',
    'scipy.sparse.isspmatrix': 'scipy.sparse.issparse', 'math.sqrt': 'numpy.sqrt', 'math.cos': 'numpy.cos',
    'math.sin': 'numpy.sin', 'math.pi': 'numpy.pi', 'math.exp': 'numpy.exp', 'cmath.exp': 'numpy.exp',
    'builtins.abs': 'builtins.abs', 'numpy.round_': 'numpy.round', 'numpy.around': 'numpy.round',
    'scipy.linalg._matfuncs.expm': 'scipy.linalg.expm', 'numpy.multiply': 'numpy.multiply',
    'scipy.sparse.base.spmatrix': 'scipy.sparse.spmatrix', 'numpy.complex128': 'numpy.complex128',
    'scipy.sparse.eye': 'scipy.sparse.eye', 'builtins.IOError': 'builtins.OSError',
}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add',
            'discard', 'popitem', 'fill', 'itemset', 'put', 'resize', 'partition', 'setflags', 'setdiag', 'sum_duplicates',
            'eliminate_zeros', 'sort_indices', 'prune', 'appendleft', 'popleft', 'rotate', 'byteswap_inplace',
            '__setitem__', '__delitem__', '__iadd__', '__imul__', 'intersection_update', 'difference_update',
            'symmetric_difference_update', '__ior__', '__iand__', 'set_shape', 'sort_values', 'has_sorted_indices'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
          ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
BUILTIN_TYPES = {'list', 'tuple', 'dict', 'set', 'str', 'int', 'float', 'complex', 'bool', 'type', 'frozenset', 'bytes'}
EXC_PARENTS = {
    'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'LookupError': ['Exception'],
    'ValueError': ['Exception'], 'TypeError': ['Exception'], 'AttributeError': ['Exception'],
    'RuntimeError': ['Exception'], 'NotImplementedError': ['RuntimeError'], 'AssertionError': ['Exception'],
    'StopIteration': ['Exception'], 'ArithmeticError': ['Exception'], 'ZeroDivisionError': ['ArithmeticError'],
    'OverflowError': ['ArithmeticError'], 'OSError': ['Exception'], 'NameError': ['Exception'],
    'UnboundLocalError': ['NameError'], 'Exception': ['BaseException'], 'KeyboardInterrupt': ['BaseException'],
    'SystemExit': ['BaseException'],
}


def exc_sub(e, h):
    if e == h or h == 'BaseException':
        return True
    seen = [e]
    while seen:
        x = seen.pop()
        if x == h:
            return True
        seen.extend(EXC_PARENTS.get(x, ['Exception'] if x not in ('Exception', 'BaseException') else
                                    (['BaseException'] if x == 'Exception' else [])))
    return False


class Interp:
    """One analysis run. Subclass / set hooks to adapt to a property."""

    def __init__(self, prog, path_limit=3000, step_limit=400000):
        self.p = prog
        self.unroll = UNROLL
        self.gens = {}
        self.path_limit, self.step_limit = path_limit, step_limit
        self.n = 0
        self.info = {}          # obj id -> ObjInfo
        self.clos = {}          # closure id -> Closure
        self.base = {}          # prelude store (decorated functions, module globals); read-only fallback
        self.types = {}         # term -> Class
        self.kinds = {}         # term -> frozenset kinds
        self.stack = []         # fn keys being inlined
        self.steps = 0
        self.loops = []         # active loop iter terms
        self.deco_cache = {}
        self.glob_cache = {}
        self.field_types = self._infer_field_types()
        self.opaque_fns = set()        # function keys / bare names that stay opaque
        self.inline_classes = {'_parameter', 'aliasClass'}
        self.dict_classes = {'aliasDict'}      # modelled as builtin dict
        self.max_rec = 2
        self.max_depth = 40
        self.analysed = set()
        self.unsupported_calls = []
        self.unbound_reads = []
        self.freezing = []
        self.lv_src = {}          # loop-carried value -> {initial value, value after one iteration}
        self.global_terms = set()  # values of module-level assignments
        self.cached_terms = {}     # results of memoised functions
        self.line = 0
        self.curmod = None
        self.implicit_try = True
        self.may_raise = lambda name: False
        self.type_hook = lambda term: None
        self.call_hook = None      # fn(self, fkey, args, kwargs, state, line) -> outcomes or None
        self.ext_hook = None
        self.attr_hook = None
        self.truth_hook = None

    # ------------------------------------------------------------------ helpers
    def _infer_field_types(self):
        ft = {}
        bad = set()
        for c in self.p.classes.values():
            for kind, a in list(c.attrs.values()):
                fs = []
                if kind in ('func', 'static', 'classm'):
                    fs = [a]
                elif kind == 'prop':
                    fs = [x for x in (a.get, a.set) if x]
                for f in fs:
                    if f.cls is not c:
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                            for t in ts:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                    k = (c.key, c.mangle(t.attr))
                                    cl = None
                                    if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                                        r = self.p.resolve_global(c.module, n.value.func.id)
                                        if r and r[0] == 'class':
                                            cl = self.p.classes[r[1]]
                                    if cl is None:
                                        if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                                            if f.name == '__init__':
                                                bad.add(k)
                                        continue
                                    if k in ft and ft[k] is not cl:
                                        bad.add(k)
                                    ft[k] = cl
        for k in bad:
            ft.pop(k, None)
        return ft

    def fresh(self, kind, cls=None, site=None, **kw):
        self.n += 1
        self.info[self.n] = ObjInfo(kind, cls, site or self.line, **kw)
        return ('obj', self.n)

    def sget(self, st, key, default=None):
        v = st.store.get(key)
        if v is None:
            v = self.base.get(key, default)
        return v

    def new_list(self, st, content):
        o = self.fresh('list')
        st.store[(o, '#c')] = content
        return o

    def new_dict(self, st, content=EMPTY_D):
        o = self.fresh('dict')
        st.store[(o, '#c')] = content
        return o

    def kind_of(self, v):
        if v[0] == 'obj':
            return self.info[v[1]].kind
        return None

    def content(self, st, v):
        """content term of a container value"""
        if v[0] == 'tup':
            return ('L',) + v[1:]
        c = self.sget(st, (v, '#c'))
        if c is not None:
            return c
        return ('content', v)

    def freeze(self, st, v):
        """embed mutable containers by content"""
        h = v[0]
        if h == 'obj':
            k = self.info[v[1]].kind
            if k not in ('list', 'set', 'dict'):
                return v
            if v in self.freezing:
                return ('cyc', v[1])
            self.freezing.append(v)
            try:
                c = self._freeze_in(st, self.content(st, v))
            finally:
                self.freezing.pop()
            return ('S', c) if k == 'set' else c
        if h == 'tup':
            return ('tup',) + tuple(self.freeze(st, x) for x in v[1:])
        return self._freeze_in(st, v)

    def _freeze_in(self, st, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'obj':
            return self.freeze(st, t)
        if t[0] in ('c', 'sym', 'ext', 'fn', 'cls', 'mod'):
            return t
        if any(isinstance(x, tuple) and x for x in t):
            return tuple(self._freeze_in(st, x) if isinstance(x, tuple) else x for x in t)
        return t

    def typeof(self, v):
        h = v[0]
        if h == 'obj':
            i = self.info[v[1]]
            return i.cls
        t = self.types.get(v)
        if t is not None:
            return t
        t = self.type_hook(v)
        if t is not None:
            return t
        if h == 'attr':
            b = self.typeof(v[1])
            if b is not None:
                for k in self.p.mro(b):
                    if isinstance(k, Class) and (k.key, v[2]) in self.field_types:
                        return self.field_types[(k.key, v[2])]
        if h == 'lv':
            return self.types.get(v)
        return None

    def is_dictlike(self, v):
        if v[0] == 'obj' and self.info[v[1]].kind == 'dict':
            return True
        t = self.typeof(v)
        return t is not None and (t.name in self.dict_classes)

    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Limit('step limit')

    @staticmethod
    def bind(outs, k):
        res = []
        for st, v in outs:
            if isinstance(v, Raise):
                res.append((st, v))
            else:
                res.extend(k(st, v))
        return res

    def seqeval(self, exprs, st, fr):
        """evaluate a list of expressions left to right -> [(st, [vals])]"""
        outs = [(st, ())]
        for e in exprs:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.eval(e, s, fr):
                    nxt.append((s2, v if isinstance(v, Raise) else vs + (v,)))
            outs = nxt
        return outs

    # ------------------------------------------------------------------ facts and truth
    def kset(self, st, t):
        k = st.facts.get(('K', t))
        if k is None:
            k = self.kinds.get(t)
        if k is None:
            k = self.static_kinds(st, t)
        return k

    def static_kinds(self, st, t):
        h = t[0]
        if h == 'c':
            v = t[2]
            if v is None:
                return frozenset('N')
            if v is True:
                return frozenset('T')
            if v is False:
                return frozenset('F')
            return frozenset('o' if v else 'z')
        if h == 'obj':
            k = self.info[t[1]].kind
            if k == 'inst':
                return frozenset('o')
            if k in ('list', 'dict', 'set'):
                c = self.content(st, t)
                if c[0] in ('L', 'D'):
                    return frozenset('o' if len(c) > 1 else 'z')
            return frozenset('zo')
        if h == 'tup':
            return frozenset('o' if len(t) > 1 else 'z')
        if h in ('fn', 'clo', 'cls', 'ext', 'bm', 'mod', 'bext', 'propobj', 'super'):
            return frozenset('o')
        if h in ('cmp', 'not', 'isinst', 'hasattr', 'callable', 'eqb', 'inb', 'nonempty', 'isnone', 'eq', 'lt', 'is',
                 'in'):
            return frozenset('TF')
        if h in ('bin', 'un', 'L', 'D', 'map', 'cat', 'pos', 'len', 'fstr'):
            return frozenset('zo')
        if h == 'choice':
            r = frozenset()
            for _, v in t[1]:
                r |= self.kset(st, v)
            return r
        if h == 'call' and isinstance(t[1], tuple) and t[1][0] == 'ext':
            q = t[1][1]
            if q in BOOL_EXT:
                return frozenset('TF')
            if q.startswith(('scipy.', 'numpy.')):
                return ALLK - frozenset('N')
        if self.typeof(t) is not None and t[0] not in ('lv',):
            tt = self.typeof(t)
            if tt.name in self.dict_classes:
                return frozenset('zo')
            return frozenset('o')
        return ALLK

    def restrict(self, st, t, ks):
        """-> state or None"""
        cur = self.kset(st, t)
        new = cur & ks
        if not new:
            return None
        if new == cur:
            return st
        s = st.copy()
        s.facts[('K', t)] = new
        return s

    def truth(self, v, st):
        """-> list of (state, bool)"""
        h = v[0]
        if h == 'c':
            return [(st, bool(v[2]))]
        if h == 'not':
            return [(s, not b) for s, b in self.truth(v[1], st)]
        if h == 'cmp':
            return self.truth_cmp(v[1], v[2], v[3], st)
        if h in ('and', 'or'):
            outs = [(st, h == 'and')]
            for part in v[1:]:
                nxt = []
                for s, b in outs:
                    if b == (h == 'and'):
                        nxt.extend(self.truth(part, s))
                    else:
                        nxt.append((s, b))
                outs = nxt
            return outs
        if h == 'isinst':
            return self.truth_isinst(v[1], v[2], st)
        if h in ('hasattr', 'in', 'eq', 'lt', 'is', 'any', 'all', 'exc', 'nobreak', 'subcls'):
            return self.atom(v, st)
        if h == 'callable':
            ks = self.kset(st, v[1])
            if not ks & frozenset('o'):
                return [(st, False)]
            outs = []
            for s, b in self.atom(v, st):
                if b:
                    s = self.restrict(s, v[1], frozenset('o'))
                if s is not None:
                    outs.append((s, b))
            return outs
        if h == 'ite':
            outs = []
            for s, b in self.truth(v[1], st):
                outs.extend(self.truth(v[2] if b else v[3], s))
            return outs
        if h == 'len':
            return self.nonempty(v[1], st)
        if h in ('content',) or self.is_dictlike(v) or self.kind_of(v) in ('list', 'dict', 'set'):
            ks = self.kset(st, v)
            if ks == frozenset('o'):
                return [(st, True)]
            if ks == frozenset('z'):
                return [(st, False)]
            return self.nonempty(v, st)
        if self.truth_hook:
            r = self.truth_hook(self, v, st)
            if r is not None:
                return r
        ks = self.kset(st, v)
        t, f = ks & frozenset('To'), ks & frozenset('NFz')
        if not f:
            return [(st, True)]
        if not t:
            return [(st, False)]
        a, b = self.restrict(st, v, t), self.restrict(st, v, f)
        return [(s, x) for s, x in ((a, True), (b, False)) if s is not None]

    def nonempty(self, v, st):
        c = v if v[0] in ('L', 'D', 'cat', 'map', 'content', 'keys', 'values', 'items') else self.content(st, v)
        if c[0] in ('L', 'D'):
            return [(st, len(c) > 1)]
        if c[0] == 'cat' and any(x[0] == 'L' and len(x) > 1 for x in c[1:]):
            return [(st, True)]
        while c[0] in ('keys', 'values', 'items', 'map') and c[0] != 'map':
            c = c[1]
        if c[0] == 'content':
            c = c[1]
        return self.atom(('nonempty', c), st)

    def atom(self, a, st):
        k = st.facts.get(a)
        if k is not None:
            return [(st, k)]
        outs = []
        for b in (True, False):
            s = st.copy()
            s.facts[a] = b
            outs.append((s, b))
        return outs

    def truth_isinst(self, x, types, st):
        """types: frozenset of type terms"""
        dec = self.decide_isinst(x, types, st)
        if dec is not None:
            return [(st, dec)]
        outs = []
        pos = st.facts.get(('I+', x))
        neg = st.facts.get(('I-', x), frozenset())
        if pos is not None:
            if pos <= types or all(any(self.type_sub(p, t) for t in types) for p in pos):
                return [(st, True)]
            if all(self.type_disjoint(p, t) for p in pos for t in types):
                return [(st, False)]
        rest = frozenset(t for t in types if not any(self.type_sub(t, n) for n in neg))
        if not rest:
            return [(st, False)]
        s = st.copy()
        s.facts[('I+', x)] = rest if pos is None else (frozenset(p for p in pos if any(
            self.type_sub(p, t) or self.type_sub(t, p) for t in rest)) or rest)
        s = self.restrict(s, x, frozenset('zoTF'))
        if s is not None:
            outs.append((s, True))
        s = st.copy()
        s.facts[('I-', x)] = neg | types
        if pos is not None:
            np_ = frozenset(p for p in pos if not any(self.type_sub(p, t) for t in types))
            if not np_:
                s = None
            else:
                s.facts[('I+', x)] = np_
        if s is not None and ('ext', 'builtins.NoneType') in types:
            s = self.restrict(s, x, ALLK - frozenset('N'))
        if s is not None:
            outs.append((s, False))
        return outs

    def type_sub(self, a, b):
        if a == b:
            return True
        if a[0] == 'cls' and b[0] == 'cls':
            return self.p.is_sub(self.p.classes[a[1]], self.p.classes[b[1]])
        if a[0] == 'cls' and b[0] == 'ext':
            return b[1] in ('builtins.object',) or any(m == b[1] for m in self.p.mro(self.p.classes[a[1]])
                                                       if isinstance(m, str))
        if a == ('ext', 'builtins.bool') and b == ('ext', 'builtins.int'):
            return True
        return b == ('ext', 'builtins.object')

    def type_disjoint(self, a, b):
        if self.type_sub(a, b) or self.type_sub(b, a):
            return False
        if a[0] == 'cls' and b[0] == 'cls':
            A, B = self.p.classes[a[1]], self.p.classes[b[1]]
            subs = [c for c in self.p.classes.values() if self.p.is_sub(c, A) and self.p.is_sub(c, B)]
            return not subs
        core = {'list', 'tuple', 'dict', 'str', 'int', 'float', 'complex', 'type', 'ndarray', 'spmatrix', 'NoneType',
                'set', 'integer', 'bool'}

        def nm(x):
            return x[1].split('.')[-1]
        if a[0] == 'ext' and b[0] == 'ext':
            return nm(a) in core and nm(b) in core
        c, e = (a, b) if a[0] == 'cls' else (b, a)
        if e[0] != 'ext':
            return False
        return nm(e) in core and not any(isinstance(m, str) and m.split('.')[-1] == nm(e)
                                         for m in self.p.mro(self.p.classes[c[1]]))

    def decide_isinst(self, x, types, st):
        h = x[0]
        names = {t[1].split('.')[-1] for t in types if t[0] == 'ext'}
        if ('ext', 'builtins.object') in types:
            return True
        if h == 'c':
            tn = x[1]
            if tn in names or (tn == 'bool' and 'int' in names):
                return True
            if 'Hashable' in names or 'Number' in names:
                return None
            return False
        if h == 'tup':
            return 'tuple' in names
        cls = self.typeof(x)
        if cls is not None:
            exact = h == 'obj'
            for t in types:
                if t[0] == 'cls' and self.p.is_sub(cls, self.p.classes[t[1]]):
                    return True
                if t[0] == 'ext' and any(isinstance(m, str) and m.split('.')[-1] == t[1].split('.')[-1]
                                         for m in self.p.mro(cls)):
                    return True
            if exact or self.exact_type(x):
                return False
            if all(self.type_disjoint(('cls', cls.key), t) for t in types):
                return False
            return None
        if h == 'obj':
            k = self.info[x[1]].kind
            return k in names
        if h == 'cls':
            return 'type' in names
        if h == 'ext' and x[1].split('.')[-1] in BUILTIN_TYPES | {'ndarray', 'spmatrix', 'integer', 'object', 'type'}:
            return 'type' in names
        if h == 'ext' and 'type' in names:
            return None
        if h in ('fn', 'clo', 'bm', 'ext'):
            return False if names <= (BUILTIN_TYPES | {'ndarray', 'spmatrix', 'integer', 'NoneType'}) else None
        if self.kset(st, x) == frozenset('N'):
            return 'NoneType' in names
        if h in ('eq', 'lt', 'cmp', 'isinst', 'not', 'isnone'):
            return 'bool' in names or 'int' in names
        return None

    def exact_type(self, x):
        return x in getattr(self, 'exact', ())

    def truth_cmp(self, op, a, b, st):
        neg = {'!=': '==', 'is not': 'is', 'not in': 'in', '>=': '<', '<=': '>'}
        if op in neg:
            return [(s, not r) for s, r in self.truth_cmp(neg[op], a, b, st)]
        if op == '>':
            return self.truth_cmp('<', b, a, st)
        if op in ('==', 'is'):
            if a == b and (op == 'is' or not self.maybe_array(a)):
                return [(st, True)]
            if is_c(a) and not is_c(b):
                a, b = b, a
            if is_c(a) and is_c(b):
                if op == 'is':
                    return [(st, a[1] == b[1] and a[2] == b[2])]
                return [(st, a[2] == b[2])]
            # size comparison on empty containers
            if a[0] == 'len' and b == C(0):
                return [(s, not r) for s, r in self.nonempty(a[1], st)]
            if b == NONE:
                t, f = frozenset('N'), ALLK - frozenset('N')
                ks = self.kset(st, a)
                outs = []
                for kk, r in ((t, True), (f, False)):
                    if ks & kk:
                        s = self.restrict(st, a, kk)
                        if s is not None:
                            outs.append((s, r))
                return outs
            if b in (TRUE, FALSE):
                if a[0] in ('cmp', 'not', 'isinst', 'hasattr', 'eq', 'lt', 'is', 'in', 'nonempty'):
                    return [(s, r == b[2]) for s, r in self.truth(a, st)]
                kk = frozenset('T' if b[2] else 'F')
                ks = self.kset(st, a)
                outs = []
                for q, r in ((kk, True), (ALLK - kk, False)):
                    if ks & q:
                        s = self.restrict(st, a, q)
                        if s is not None:
                            outs.append((s, r))
                return outs
            ident = ('fn', 'clo', 'cls', 'ext', 'mod')
            if a[0] in ident and b[0] in ident:
                return [(st, a == b)]
            if op == 'is' and (a[0] == 'obj' or b[0] == 'obj'):
                if a[0] == 'obj' and b[0] == 'obj':
                    return [(st, a == b)]
                return [(st, False)] if self.is_fresh_vs(a, b) else self.atom(('is', *sorted((a, b), key=repr)), st)
            if b[0] == 'c':
                return self.eq_const(a, b, st)
            if op == 'is':
                return self.atom(('is', *sorted((a, b), key=repr)), st)
            fa = self.freeze(st, a)
            fb = self.freeze(st, b)
            if fa[0] == 'L' and fb[0] == 'L' and all(is_c(x) for x in fa[1:] + fb[1:]):
                return [(st, fa == fb)]
            if fb == EMPTY_L and fa[0] == 'content':
                return [(s, not r) for s, r in self.nonempty(a, st)]
            if fb == EMPTY_L:
                return [(s, not r) for s, r in self.nonempty(a, st)]
            return self.atom(('eq', *sorted((fa, fb), key=repr)), st)
        if op == '<':
            if is_c(a) and is_c(b):
                try:
                    return [(st, a[2] < b[2])]
                except TypeError:
                    pass
            if a == C(0) and b[0] == 'len':
                return self.nonempty(b[1], st)
            if b == C(1) and a[0] == 'len':
                return [(s, not r) for s, r in self.nonempty(a[1], st)]
            if a == b:
                return [(st, False)]
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            # x < y known  => not y < x
            if st.facts.get(('lt', fb, fa)) is True:
                return [(st, False)]
            return self.atom(('lt', fa, fb), st)
        if op == 'in':
            items = self.known_items(b, st)
            if items is not None and len(items) <= self.unroll:
                outs = [(st, False)]
                for it in items:
                    nxt = []
                    for s, r in outs:
                        if r:
                            nxt.append((s, r))
                        else:
                            nxt.extend(self.truth_cmp('==', a, it, s))
                    outs = nxt
                return outs
            if is_c(b) and b[1] == 'str' and is_c(a):
                return [(st, a[2] in b[2])]
            fb = self.iterterm(b, st) if not (is_c(b)) else b
            fa = self.freeze(st, a)
            if fa[0] == 'elem' and fa[1] == fb:
                return [(st, True)]
            if fb[0] == 'keys' and fb[1][0] == 'D' and len(fb[1]) <= self.unroll:
                left = []
                for x in fb[1][1:]:
                    if x[0] == fa:
                        return [(st, True)]
                    if st.facts.get(('eq',) + tuple(sorted((fa, x[0]), key=repr))) is not False and not self.differ(fa, x[0]):
                        left.append(x)
                if not left:
                    return [(st, False)]
            return self.atom(('in', fa, fb), st)
        raise Unsupported('cmp ' + op)

    def is_fresh_vs(self, a, b):
        o, other = (a, b) if a[0] == 'obj' else (b, a)
        return other[0] in ('sym', 'attr', 'c', 'fn', 'cls', 'ext', 'elem') and self.kind_of(o) is not None \
            and not getattr(self, 'objs_escape', False)

    def maybe_array(self, a):
        return False

    def eq_const(self, a, b, st):
        known = st.facts.get(('EQ', a))
        if known is not None:
            return [(st, known[2] == b[2])]
        ks = self.kset(st, a)
        if b[1] in ('str', 'int', 'float', 'complex'):
            kk = frozenset('o') if b[2] else frozenset('z')
            if b[1] != 'str' and b[2] in (0, 1):
                kk = kk | frozenset('F' if b[2] == 0 else 'T')
            if not ks & kk:
                return [(st, False)]
        if ('eq', a, b) in st.facts:
            return [(st, st.facts[('eq', a, b)])]
        outs = []
        s = st.copy()
        s.facts[('EQ', a)] = b
        outs.append((s, True))
        s = st.copy()
        s.facts[('eq', a, b)] = False
        outs.append((s, False))
        return outs

    # ------------------------------------------------------------------ containers
    def known_items(self, v, st):
        if v[0] == 'tup':
            return list(v[1:])
        if v[0] in ('L',):
            return list(v[1:])
        k = self.kind_of(v)
        if k in ('list', 'set'):
            c = self.content(st, v)
            if c[0] == 'L':
                return list(c[1:])
            return None
        if k == 'dict':
            c = self.content(st, v)
            if c[0] == 'D':
                return [kk for kk, _ in c[1:]]
            return None
        if v[0] in ('keys', 'values', 'items') and v[1][0] == 'D':
            d = v[1][1:]
            return [x[0] if v[0] == 'keys' else x[1] if v[0] == 'values' else tup(x[0], x[1]) for x in d]
        if v[0] == 'range' and all(is_c(x) and isinstance(x[2], int) for x in v[1:]):
            r = range(*[x[2] for x in v[1:]])
            if len(r) <= self.unroll:
                return [C(i) for i in r]
            return None
        if v[0] == 'enumerate':
            it = self.known_items(v[1], st)
            return None if it is None else [tup(C(i), x) for i, x in enumerate(it)]
        if v[0] == 'zip':
            its = [self.known_items(x, st) for x in v[1:]]
            if any(i is None for i in its):
                return None
            return [tup(*xs) for xs in zip(*its)]
        if v[0] == 'reversed':
            it = self.known_items(v[1], st)
            return None if it is None else it[::-1]
        if v[0] == 'c' and v[1] == 'str' and len(v[2]) <= self.unroll:
            return [C(ch) for ch in v[2]]
        if v[0] == 'chain':
            its = [self.known_items(x, st) for x in v[1:]]
            if any(i is None for i in its):
                return None
            return [y for x in its for y in x]
        return None

    def iterterm(self, v, st):
        """canonical term of the sequence produced by iterating v"""
        h = v[0]
        if h == 'obj':
            k = self.info[v[1]].kind
            c = self.content(st, v)
            if k == 'dict' or self.is_dictlike(v):
                return ('keys', self._freeze_in(st, c))
            if k in ('list', 'set'):
                return self._freeze_in(st, c)
            return v
        if h == 'tup':
            return ('L',) + tuple(self.freeze(st, x) for x in v[1:])
        if h in ('keys', 'values', 'items', 'range', 'enumerate', 'zip', 'reversed', 'map', 'L', 'cat', 'content',
                 'chain'):
            return self._freeze_in(st, v)
        if self.is_dictlike(v):
            return ('keys', self.content(st, v))
        c = self.sget(st, (v, '#c'))
        if c is not None:
            return self._freeze_in(st, c)
        return self._freeze_in(st, v)

    def elem_of(self, it, depth):
        """element term for an arbitrary iteration over iter term `it`"""
        h = it[0]
        d = (depth,) if depth else ()
        if h == 'enumerate':
            start = it[2] if len(it) > 2 else C(0)
            p = ('pos', it[1]) + d
            if start != C(0):
                p = ('bin', '+', p, start)
            return tup(p, self.elem_of(it[1], depth))
        if h == 'zip':
            return tup(*[self.elem_of(x, depth) for x in it[1:]])
        if h == 'items':
            return tup(('elem', ('keys', it[1])) + d, ('elem', ('values', it[1])) + d)
        if h == 'map' and len(it[1]) == 1 and it[1][0][0] == ():
            return it[1][0][1]
        if h == 'range' and len(it) == 2:
            if it[1][0] == 'len':
                return ('pos', it[1][1]) + d
        return ('elem', it) + d

    def base_iter(self, it):
        """iteration space: loops over the same space are the same loop"""
        h = it[0]
        if h == 'enumerate':
            return self.base_iter(it[1])
        if h in ('keys', 'values', 'items'):
            return ('dict', it[1])
        if h == 'range' and len(it) == 2 and it[1][0] == 'len':
            return self.base_iter(it[1][1])
        if h == 'zip':
            return self.base_iter(it[1])
        if h == 'map' and len(it[1]) == 1 and it[1][0][0] == ():
            return self.base_iter(it[2])
        return it

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st, fr):
        self.tick()
        if hasattr(e, 'lineno'):
            self.line = e.lineno
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expr ' + type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [(st, C(e.value))]

    def e_Name(self, e, st, fr):
        name = e.id
        func = fr['func']
        if func is not None and func.cls is not None:
            name = func.cls.mangle(name)
        return self.load_name(name, st, fr)

    def load_name(self, name, st, fr):
        f = fr
        while f is not None:
            k = (f['id'], name)
            v = self.sget(st, k)
            if v is not None:
                if v == ('unbound',):
                    break
                return [(st, v)]
            if name in f['locals'] and not (name in f['globals']):
                if f is fr:
                    self.unbound_reads.append((f['func'], name, self.line, dict(st.facts.items())))
                    return [(st, Raise('UnboundLocalError', self.line, True))]
            f = f['parent']
        return [(st, self.load_global(name, fr['module'], st))]

    def load_global(self, name, module, st):
        r = self.p.resolve_global(module, name)
        if r is None:
            return self.ext('builtins.' + name)
        return self.global_val(r, st)

    def global_val(self, r, st):
        if r[0] == 'func':
            return self.func_val(self.p.funcs[r[1]])
        if r[0] == 'class':
            return ('cls', r[1])
        if r[0] == 'module':
            return ('mod', r[1])
        if r[0] == 'ext':
            return self.ext(r[1])
        if r[0] == 'assign':
            expr, m = r[1], r[2]
            key = id(expr)
            if key not in self.glob_cache:
                self.glob_cache[key] = ('sym', 'global')    # recursion guard
                try:
                    s = State()
                    outs = self.eval(expr, s, self.module_frame(m))
                    outs = [(a, b) for a, b in outs if not isinstance(b, Raise)]
                    if len(outs) == 1:
                        s2, v = outs[0]
                        self.base.update(s2.store.whole())
                        self.glob_cache[key] = v
                        if v[0] in ('obj', 'call', 'mcall', 'bin', 'un'):
                            self.global_terms.add(v)
                        if v[0] == 'obj':
                            self.info[v[1]].label = 'module-global'
                    else:
                        self.glob_cache[key] = ('sym', f'global:{m.name}:{getattr(expr, "lineno", 0)}')
                except Unsupported:
                    self.glob_cache[key] = ('sym', f'global:{m.name}:{getattr(expr, "lineno", 0)}')
            return self.glob_cache[key]
        raise Unsupported('global ' + str(r))

    def module_frame(self, m, cls=None):
        return {'id': ('modframe', m.name), 'locals': (), 'globals': (), 'parent': None, 'module': m, 'func': None
                if cls is None else type('F', (), {'cls': cls})()}

    def ext(self, q):
        q = CANON_EXT.get(q, q)
        return ('ext', q)

    def func_val(self, f):
        """value of a (possibly decorated) package function"""
        if not f.decos:
            return ('fn', f.key)
        if f.key in self.deco_cache:
            return self.deco_cache[f.key]
        self.deco_cache[f.key] = ('fn', f.key)      # recursion guard
        v = ('fn', f.key)
        saved = (self.stack, self.loops)
        self.stack, self.loops = [], []
        try:
            for d in reversed(f.decos):
                st = State()
                fr = self.module_frame(f.module, f.cls)
                if f.cls is not None:
                    # class-scope names usable in decorators
                    fr = dict(fr)
                outs = self.eval_deco(d, st, fr, v, f)
                v = outs
        finally:
            self.stack, self.loops = saved
        self.deco_cache[f.key] = v
        return v

    def eval_deco(self, d, st, fr, v, f):
        txt = ast.unparse(d)
        if txt.endswith('wraps') or txt.split('(')[0].endswith('wraps'):
            return v
        outs = [(s, x) for s, x in self.eval(d, st, fr) if not isinstance(x, Raise)]
        if len(outs) != 1:
            raise Unsupported('decorator ' + txt)
        s, dv = outs[0]
        if dv[0] == 'ext' or (dv[0] in ('call',) and dv[1] is not None and isinstance(dv[1], tuple) and
                              dv[1][0] == 'ext'):
            q = dv[1] if dv[0] == 'ext' else dv[1][1]
            if q.split('.')[-1] in ('wraps',):
                return v
            return ('extdeco', q, v)
        outs = [(a, b) for a, b in self.call(dv, (v,), (), s) if not isinstance(b, Raise)]
        if len(outs) != 1:
            raise Unsupported('decorator ' + txt)
        s2, r = outs[0]
        self.base.update(s2.store.whole())
        return r

    def e_Attribute(self, e, st, fr):
        name = e.attr
        func = fr['func']
        if func is not None and func.cls is not None:
            name = func.cls.mangle(name)
        line = e.lineno
        return self.bind(self.eval(e.value, st, fr), lambda s, v: self.getattr(v, name, s, line))

    def getattr(self, v, name, st, line=0, default=None):
        self.line = line or self.line
        if self.attr_hook:
            r = self.attr_hook(self, v, name, st)
            if r is not None:
                return r
        h = v[0]
        if h == 'mod':
            r = self.p.resolve_global(self.p.modules[v[1]], name)
            if r is None:
                if f'{v[1]}.{name}' in self.p.modules:
                    return [(st, ('mod', f'{v[1]}.{name}'))]
                return [(st, ('attr', v, name))]
            return [(st, self.global_val(r, st))]
        if h == 'ext':
            return [(st, self.ext(v[1] + '.' + name))]
        ov = self.sget(st, (v, name))
        if ov is not None:
            return [(st, ov)]
        if h == 'cls' and name == '__class__' and not any(isinstance(k, Class) and k.node.keywords for k in self.p.mro(self.p.classes[v[1]])):
            return [(st, self.ext('builtins.type'))]
        if h == 'cls':
            return self.class_attr(v, name, st)
        if h == 'super':
            return self.super_attr(v, name, st)
        if h == 'propobj':
            p = v[1]
            f = {'fget': p.get, 'fset': p.set, 'fdel': p.dele}.get(name)
            if f is None:
                raise Unsupported('property.' + name)
            return [(st, self.func_val(f))]
        if h == 'c' and v[2] is None:
            if name in ('__class__',):
                return [(st, self.ext('builtins.NoneType'))]
            return [(st, Raise('AttributeError', line, True))]
        if h in ('fn', 'clo') and name in ('__name__', '__doc__', '__qualname__'):
            return [(st, ('attr', v, name))]
        cls = self.typeof(v)
        if cls is not None and cls.name not in self.dict_classes:
            r = self.inst_attr(v, cls, name, st)
            if r is not None:
                return r
        k = self.kind_of(v)
        if k in ('list', 'dict', 'set') or (cls is not None and cls.name in self.dict_classes) or h == 'tup' or \
                (h == 'c' and v[1] == 'str'):
            return [(st, ('bext', name, v))]
        if name == 'T' and False:
            pass
        return [(st, ('attr', self.freeze(st, v) if h in ('obj',) and k != 'inst' else v, name))]

    def class_attr(self, v, name, st):
        c = self.p.classes[v[1]]
        if name == '__name__':
            return [(st, C(c.name))]
        if name == '__mro__':
            return [(st, tup(*[('cls', k.key) if isinstance(k, Class) else self.ext(k) for k in self.p.mro(c)]
                             + [self.ext('builtins.object')]))]
        if name in ('__base__',):
            b = c.bases[0] if c.bases else 'builtins.object'
            return [(st, ('cls', b.key) if isinstance(b, Class) else self.ext(b))]
        for k in self.p.mro(c):
            if isinstance(k, Class):
                ov = self.sget(st, (('cls', k.key), name))
                if ov is not None:
                    return [(st, ov)]
                if name in k.attrs:
                    if k.attrs[name][0] == 'var' and name in self.class_written():
                        return [(st, ('attr', v, name))]
                    return [(st, self.entry_val(k, k.attrs[name], st, cls=v))]
            else:
                return [(st, ('extcls', k, name, v))]
        return [(st, ('attr', v, name))]

    def class_written(self):
        """names of class variables that some code of the package assigns through a class"""
        w = getattr(self.p, '_class_written', None)
        if w is None:
            w = self.p._class_written = set()
            names = {c.name for c in self.p.classes.values()} | {'cls'}
            for f in self.p.funcs.values():
                for n in ast.walk(f.node):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) \
                        else []
                    for t in ts:
                        for a in ast.walk(t):
                            if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store):
                                b = a.value
                                if (isinstance(b, ast.Name) and b.id in names) or \
                                        (isinstance(b, ast.Attribute) and b.attr == '__class__') or \
                                        (isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'type'):
                                    w.add(a.attr)
        return w

    def entry_val(self, owner, ent, st, cls=None, inst=None):
        kind, a = ent
        if kind == 'func':
            f = self.func_val(a)
            return ('bm', f, inst) if inst is not None else f
        if kind == 'static':
            return self.func_val(a)
        if kind == 'classm':
            return ('bm', self.func_val(a), cls)
        if kind == 'prop':
            return ('propobj', a)
        if kind == 'modvar':
            expr, m = a
            outs = self.eval(expr, st, self.module_frame(m))
            v = outs[0][1]
            if inst is not None and v[0] in ('fn', 'clo'):
                return ('bm', v, inst)
            return v
        if kind == 'var':
            key = ('cv', owner.key, id(a))
            if key not in self.glob_cache:
                self.glob_cache[key] = ('attr', ('cls', owner.key), '?')
                try:
                    s = State()
                    fr = self.module_frame(owner.module, owner)
                    outs = [(x, y) for x, y in self.eval(a, s, fr) if not isinstance(y, Raise)]
                    if len(outs) == 1:
                        self.base.update(outs[0][0].store.whole())
                        self.glob_cache[key] = outs[0][1]
                        if outs[0][1][0] == 'obj':
                            self.info[outs[0][1][1]].label = 'class-global'
                except Unsupported:
                    pass
            v = self.glob_cache[key]
            if inst is not None and v[0] in ('fn', 'clo'):
                return ('bm', v, inst)
            return v
        raise Unsupported('class entry ' + kind)

    def inst_attr(self, v, cls, name, st):
        if name == '__class__':
            if v[0] == 'obj' or self.exact_type(v):
                return [(st, ('cls', cls.key))]
            return [(st, ('attr', v, '__class__'))]
        r = self.p.lookup(cls, name)
        if r is not None:
            owner, ent = r
            if ent[0] == 'prop':
                if ent[1].get is None:
                    return [(st, Raise('AttributeError', self.line))]
                return self.call(self.func_val(ent[1].get), (v,), (), st)
            if ent[0] == 'var' and (self.p.has_slot(cls, name) or name in self.class_written()):
                return [(st, ('attr', v, name))]
            return [(st, self.entry_val(owner, ent, st, cls=('cls', cls.key), inst=v))]
        if self.p.has_slot(cls, name):
            return [(st, ('attr', v, name))]
        if name.startswith('__') and name.endswith('__'):
            return [(st, ('attr', v, name))]
        # QSimComp-style fallback
        if self.p.lookup(cls, '__getattribute__') is not None and self.p.lookup(cls, 'simulation') is not None:
            return self.bind(self.getattr(v, 'simulation', st), lambda s, sv: self.getattr(sv, name, s))
        for k in self.p.mro(cls):
            if isinstance(k, str) and k != 'builtins.object':
                return [(st, ('bext', name, v))]
        return [(st, ('attr', v, name))]

    def super_attr(self, v, name, st):
        _, owner, selfv = v
        if selfv[0] == 'cls':
            dyn = self.p.classes[selfv[1]]
        else:
            dyn = self.typeof(selfv)
        ownerc = self.p.classes[owner]
        if dyn is None:
            dyn = ownerc
        r = self.p.lookup(dyn, name, after=ownerc)
        if r is None:
            return [(st, ('bext', name, selfv))]
        o, ent = r
        if ent[0] == 'prop':
            return self.call(self.func_val(ent[1].get), (selfv,), (), st)
        return [(st, self.entry_val(o, ent, st, cls=('cls', dyn.key), inst=selfv))]

    def setattr(self, v, name, val, st, line=0):
        """-> [(state, NONE or Raise)]"""
        self.line = line or self.line
        cls = self.typeof(v)
        if v[0] == 'super':
            selfv = v[2]
            cls = self.typeof(selfv)
            r = self.p.lookup(cls, name, after=self.p.classes[v[1]]) if cls else None
            if r and r[1][0] == 'prop' and r[1][1].set:
                return self.call(self.func_val(r[1][1].set), (selfv, val), (), st)
            v = selfv
        elif cls is not None and v[0] != 'cls' and cls.name not in self.dict_classes:
            r = self.p.lookup(cls, name)
            if r is not None and r[1][0] == 'prop':
                if r[1][1].set is None:
                    if self.p.lookup(cls, '__setattr__') and self.p.lookup(cls, 'simulation'):
                        return self.bind(self.getattr(v, 'simulation', st), lambda s, sv: self.setattr(sv, name, val, s))
                    return [(st, Raise('AttributeError', self.line))]
                return self.bind(self.call(self.func_val(r[1][1].set), (v, val), (), st), lambda s, _: [(s, NONE)])
            if not self.p.has_slot(cls, name) and self.p.lookup(cls, '__setattr__') is not None and \
                    self.p.lookup(cls, 'simulation') is not None:
                return self.bind(self.getattr(v, 'simulation', st), lambda s, sv: self.setattr(sv, name, val, s))
        s = st.copy()
        s.store[(v, name)] = val
        s.ev('w', v, name, val, self.line)
        return [(s, NONE)]

    # dynamic getattr/setattr with a term name
    def e_Subscript(self, e, st, fr):
        line = e.lineno

        def k(s, v):
            if isinstance(e.slice, ast.Slice):
                return self.bind(self.eval_slice(e.slice, s, fr), lambda s2, sl: self.getitem(v, sl, s2, line))
            return self.bind(self.eval(e.slice, s, fr), lambda s2, i: self.getitem(v, i, s2, line))
        return self.bind(self.eval(e.value, st, fr), k)

    def eval_slice(self, sl, st, fr):
        parts = [x if x is not None else ast.Constant(value=None, lineno=0, col_offset=0)
                 for x in (sl.lower, sl.upper, sl.step)]
        return [(s, v if isinstance(v, Raise) else ('slice',) + v) for s, v in self.seqeval(parts, st, fr)]

    def e_Slice(self, e, st, fr):
        return self.eval_slice(e, st, fr)

    def getitem(self, v, i, st, line=0):
        self.line = line or self.line
        k = self.kind_of(v)
        if v[0] in ('tup', 'L') or k == 'list':
            c = self.content(st, v) if v[0] != 'L' else v
            if c[0] == 'L':
                items = c[1:]
                if is_c(i) and isinstance(i[2], int):
                    if -len(items) <= i[2] < len(items):
                        return [(st, items[i[2]])]
                    return [(st, Raise('IndexError', line, True))]
                if i[0] == 'slice' and all(is_c(x) for x in i[1:]):
                    sub = items[slice(*[x[2] for x in i[1:]])]
                    if v[0] == 'tup':
                        return [(st, tup(*sub))]
                    s = st.copy()
                    return [(s, self.new_list(s, ('L',) + tuple(sub)))]
        if k == 'dict' or self.is_dictlike(v):
            c = self.content(st, v)
            r = self.dict_lookup(c, i, st)
            if r is not None:
                return [(st, r)]
            fi = self.freeze(st, i)
            if v[0] == 'obj' and c[0] == 'D' and self.info[v[1]].args and (self.info[v[1]].label or '').startswith('defaultdict') and \
                    all(is_c(fi) and is_c(kk) or st.facts.get(('eq',) + tuple(sorted((fi, kk), key=repr))) is False
                        for kk, _ in c[1:]):
                outs = []
                for s, d in self.call(self.info[v[1]].args[0], (), (), st):
                    if isinstance(d, Raise):
                        outs.append((s, d))
                        continue
                    s = s.copy()
                    s.store[(v, '#c')] = c + ((i, d),)
                    outs.append((s, d))
                return outs
            if fi[0] == 'elem' and fi[1][0] == 'keys' and fi[1][1] == self._freeze_in(st, c):
                return [(st, ('elem', ('values', fi[1][1])) + fi[2:])]
            return [(st, ('idx', v if k != 'dict' else self._freeze_in(st, c), fi))]
        cls = self.typeof(v)
        if cls is not None:
            r = self.p.lookup(cls, '__getitem__')
            if r is not None:
                return self.call(('bm', self.func_val(r[1][1]), v), (i,), (), st)
        it = self.iterterm(v, st) if v[0] != 'c' else v
        fi = self.freeze(st, i)
        if fi[0] == 'pos' and len(fi) >= 2 and fi[1] == it:
            return [(st, self.elem_of(it, fi[2] if len(fi) > 2 else 0))]
        ov = self.sget(st, (v, ('item', fi)))
        if ov is not None:
            return [(st, ov)]
        if v[0] == 'c' and is_c(i):
            try:
                return [(st, C(v[2][i[2]]))]
            except Exception:
                return [(st, Raise('IndexError', line, True))]
        return [(st, ('idx', it if k == 'list' or v[0] == 'tup' else v, fi))]

    def dict_lookup(self, c, key, st):
        """value for key in dict content c, or None if not determined"""
        key = self.freeze(st, key)
        while True:
            if c[0] == 'D':
                for kk, vv in reversed(c[1:]):
                    if self.freeze(st, kk) == key:
                        return vv
                return None
            if c[0] == 'put':
                if self.freeze(st, c[2]) == key:
                    return c[3]
                if self.differ(key, self.freeze(st, c[2])):
                    c = c[1]
                    continue
                return None
            return None

    def differ(self, a, b):
        """two keys that cannot be equal"""
        return is_c(a) and is_c(b) and a != b

    def setitem(self, v, i, val, st, line=0):
        self.line = line or self.line
        k = self.kind_of(v)
        s = st.copy()
        if k == 'list':
            c = self.content(s, v)
            s.ev('mut', v, '__setitem__', (i, val), self.line)
            if c[0] == 'L' and is_c(i) and isinstance(i[2], int) and -len(c) + 1 <= i[2] < len(c) - 1:
                items = list(c[1:])
                items[i[2]] = val
                s.store[(v, '#c')] = ('L',) + tuple(items)
            else:
                s.store[(v, '#c')] = ('setitem', c, self.freeze(s, i), self.freeze(s, val))
            return [(s, NONE)]
        cls = self.typeof(v)
        if k == 'dict' or self.is_dictlike(v):
            return self.dict_put(v, i, val, s)
        if cls is not None:
            r = self.p.lookup(cls, '__setitem__')
            if r is not None:
                return self.bind(self.call(('bm', self.func_val(r[1][1]), v), (i, val), (), st),
                                 lambda s2, _: [(s2, NONE)])
        s.ev('mut', v, '__setitem__', (i, val), self.line)
        if v[0] in ('sym', 'attr', 'idx', 'elem', 'call', 'lv', 'fold', 'cls'):
            s.store[(v, ('item', self.freeze(s, i)))] = val
        return [(s, NONE)]

    def dict_put(self, v, i, val, s):
        c = self.content(s, v)
        s.ev('mut', v, '__setitem__', (i, val), self.line)
        if c[0] == 'D':
            items = [kv for kv in c[1:]]
            fk = self.freeze(s, i)
            for n, (kk, _) in enumerate(items):
                if self.freeze(s, kk) == fk:
                    items[n] = (kk, val)
                    break
            else:
                items.append((i, val))
            if all(is_c(kk) or kk[0] in ('fn', 'cls', 'obj', 'sym', 'attr', 'tup', 'ext') for kk, _ in items):
                s.store[(v, '#c')] = ('D',) + tuple(items)
                return [(s, NONE)]
        s.store[(v, '#c')] = ('put', c, i, val)
        return [(s, NONE)]

    def e_BinOp(self, e, st, fr):
        op = BINOPS[type(e.op)]
        line = e.lineno

        def k(s, a):
            return self.bind(self.eval(e.right, s, fr), lambda s2, b: self.binop(op, a, b, s2, line))
        return self.bind(self.eval(e.left, st, fr), k)

    def binop(self, op, a, b, st, line=0):
        self.line = line or self.line
        if is_c(a) and is_c(b):
            try:
                x, y = a[2], b[2]
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y,
                     '//': lambda: x // y, '%': lambda: x % y, '**': lambda: x ** y if abs(y) < 64 else 1 / 0,
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                return [(st, C(r))]
            except Exception:
                pass
        ka, kb = self.kind_of(a), self.kind_of(b)
        if op == '+' and (ka == 'list' or a[0] == 'tup') and (kb == 'list' or b[0] == 'tup'):
            ca, cb = self.content(st, a), self.content(st, b)
            s = st.copy()
            if a[0] == 'tup' and b[0] == 'tup':
                return [(st, a + b[1:])]
            return [(s, self.new_list(s, self.cat(ca, cb)))]
        if op == '+' and (ka == 'list' or kb == 'list'):
            s = st.copy()
            ca = self.content(st, a) if ka == 'list' else self.iterterm(a, st)
            cb = self.content(st, b) if kb == 'list' else self.iterterm(b, st)
            return [(s, self.new_list(s, self.cat(ca, cb)))]
        if op == '*' and ka == 'list' and is_c(b) and isinstance(b[2], int):
            ca = self.content(st, a)
            if ca[0] == 'L' and b[2] * (len(ca) - 1) <= 64:
                s = st.copy()
                return [(s, self.new_list(s, ('L',) + ca[1:] * b[2]))]
        if op == '*' and ka == 'list':
            s = st.copy()
            return [(s, self.new_list(s, ('repeat', self._freeze_in(st, self.content(st, a)), self.freeze(st, b))))]
        # user-defined operators
        cls = self.typeof(a)
        mname = {'+': '__add__', '-': '__sub__', '*': '__mul__', '@': '__matmul__'}.get(op)
        if cls is not None and mname and cls.name not in self.dict_classes:
            r = self.p.lookup(cls, mname)
            if r is not None:
                return self.call(('bm', self.func_val(r[1][1]), a), (b,), (), st)
        cls = self.typeof(b)
        if cls is not None and mname and cls.name not in self.dict_classes and (is_c(a) or a[0] == 'gen'):
            r = self.p.lookup(cls, '__r' + mname[2:])
            if r is not None:
                return self.call(('bm', self.func_val(r[1][1]), b), (a,), (), st)
        return [(st, ('bin', op, self.freeze(st, a), self.freeze(st, b)))]

    @staticmethod
    def cat(*cs):
        out = []
        for c in cs:
            parts = c[1:] if c[0] == 'cat' else (c,)
            for p in parts:
                if p == EMPTY_L:
                    continue
                if out and out[-1][0] == 'L' and p[0] == 'L':
                    out[-1] = out[-1] + p[1:]
                else:
                    out.append(p)
        if not out:
            return EMPTY_L
        return out[0] if len(out) == 1 else ('cat',) + tuple(out)

    def e_UnaryOp(self, e, st, fr):
        def k(s, v):
            if isinstance(e.op, ast.Not):
                return [(s, self.mknot(v, s))]
            op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
            if is_c(v):
                try:
                    return [(s, C({'-': lambda x: -x, '+': lambda x: +x, '~': lambda x: ~x}[op](v[2])))]
                except Exception:
                    pass
            return [(s, ('un', op, self.freeze(s, v)))]
        return self.bind(self.eval(e.operand, st, fr), k)

    def mknot(self, v, s):
        if is_c(v):
            return C(not v[2])
        ks = self.kset(s, v)
        if not ks & frozenset('To'):
            return TRUE
        if not ks & frozenset('NFz'):
            return FALSE
        if v[0] == 'not':
            return v[1] if self.kset(s, v[1]) <= frozenset('TF') else ('not', v)
        return ('not', v)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        res = []
        outs = [(st, None)]
        for n, x in enumerate(e.values):
            last = n == len(e.values) - 1
            nxt = []
            for s, _ in outs:
                for s2, v in self.eval(x, s, fr):
                    if isinstance(v, Raise) or last:
                        res.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2):
                        if b == isand:
                            nxt.append((s3, v))
                        else:
                            vv = v
                            if v[0] in ('cmp', 'not', 'isinst', 'hasattr', 'in', 'eq', 'lt', 'is', 'callable',
                                        'nonempty', 'and', 'or', 'any', 'all'):
                                vv = C(b)
                            res.append((s3, vv))
            outs = nxt
        return res

    def e_Compare(self, e, st, fr):
        outs = [(st, None, None)]

        def go(s, left, idx):
            res = []
            for s2, r in self.eval(e.comparators[idx], s, fr):
                if isinstance(r, Raise):
                    res.append((s2, r))
                    continue
                op = CMPOPS[type(e.ops[idx])]
                v = self.mkcmp(op, left, r, s2)
                if idx == len(e.comparators) - 1:
                    res.append((s2, v))
                else:
                    for s3, b in self.truth(v, s2):
                        if b:
                            res.extend(go(s3, r, idx + 1))
                        else:
                            res.append((s3, FALSE))
            return res
        return self.bind(self.eval(e.left, st, fr), lambda s, l: go(s, l, 0))

    def mkcmp(self, op, a, b, st):
        # decide now when possible (single outcome), otherwise lazily
        try:
            outs = self.truth_cmp(op, a, b, st)
            if len(outs) == 1 and outs[0][0] is st:
                return C(outs[0][1])
        except Unsupported:
            raise
        return ('cmp', op, a, b)

    def e_IfExp(self, e, st, fr):
        res = []
        for s, v in self.eval(e.test, st, fr):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            for s2, b in self.truth(v, s):
                res.extend(self.eval(e.body if b else e.orelse, s2, fr))
        return res

    def e_NamedExpr(self, e, st, fr):
        def k(s, v):
            s = s.copy()
            s.store[(fr['id'], e.target.id)] = v
            return [(s, v)]
        return self.bind(self.eval(e.value, st, fr), k)

    def e_List(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.bind(self.eval_args(e.elts, st, fr),
                             lambda s, vs: self._mk_starred_list(s, vs))
        def k(s, vs):
            s = s.copy()
            return [(s, self.new_list(s, ('L',) + vs))]
        return self.bind(self.seqeval(e.elts, st, fr), k)

    def _mk_starred_list(self, s, vs):
        s = s.copy()
        c = EMPTY_L
        for v in vs:
            if v[0] == 'star':
                items = self.known_items(v[1], s)
                c = self.cat(c, ('L',) + tuple(items) if items is not None else self.iterterm(v[1], s))
            else:
                c = self.cat(c, ('L', v))
        return [(s, self.new_list(s, c))]

    def e_Set(self, e, st, fr):
        def k(s, vs):
            s = s.copy()
            o = self.fresh('set')
            s.store[(o, '#c')] = ('L',) + vs
            return [(s, o)]
        return self.bind(self.seqeval(e.elts, st, fr), k)

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            def k2(s, vs):
                out = []
                for v in vs:
                    if v[0] == 'star':
                        items = self.known_items(v[1], s)
                        if items is None:
                            s2 = s.copy()
                            return self._mk_starred_list(s2, vs)
                        out += items
                    else:
                        out.append(v)
                return [(s, tup(*out))]
            return self.bind(self.eval_args(e.elts, st, fr), k2)
        return self.bind(self.seqeval(e.elts, st, fr), lambda s, vs: [(s, tup(*vs))])

    def e_Dict(self, e, st, fr):
        if any(k is None for k in e.keys):
            raise Unsupported('dict **')

        def k(s, vs):
            s = s.copy()
            n = len(e.keys)
            d = self.new_dict(s)
            outs = [(s, NONE)]
            for kk, vv in zip(vs[:n], vs[n:]):
                outs = self.bind(outs, lambda s2, _: self.dict_put_quiet(d, kk, vv, s2))
            return [(s2, d) for s2, _ in outs]
        return self.bind(self.seqeval(list(e.keys) + list(e.values), st, fr), k)

    def dict_put_quiet(self, d, k, v, s):
        s = s.copy()
        ev = s.events
        r = self.dict_put(d, k, v, s)
        for s2, _ in r:
            s2.events = ev
        return r

    def e_JoinedStr(self, e, st, fr):
        exprs = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]

        def k(s, vs):
            parts = []
            for v in vs:
                if is_c(v):
                    parts.append(str(v[2]))
                else:
                    parts.append(self.freeze(s, v))
            if all(isinstance(x, str) for x in parts):
                return [(s, C(''.join(parts)))]
            return [(s, ('fstr',) + tuple(C(x) if isinstance(x, str) else x for x in parts))]
        return self.bind(self.seqeval(exprs, st, fr), k)

    def e_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return self.bind(self.eval(e.value, st, fr), lambda s, v: [(s, ('star', v))])

    def e_Lambda(self, e, st, fr):
        return self.make_closure(e, st, fr, '<lambda>')

    def make_closure(self, node, st, fr, name):
        func = fr['func']
        cls = getattr(func, 'cls', None)
        key = (getattr(func, 'key', None) or fr['module'].name) + '.' + name + ':' + str(node.lineno)
        f = Func(key, node, fr['module'], cls, name)
        a = node.args
        defs = list(a.defaults)
        kwd = [x for x in a.kw_defaults]
        exprs = defs + [x for x in kwd if x is not None]

        def k(s, vs):
            self.n += 1
            dv = vs[:len(defs)]
            rest = list(vs[len(defs):])
            kwv = [None if x is None else rest.pop(0) for x in kwd]
            self.clos[self.n] = Closure(f, fr, dv, kwv)
            return [(s, ('clo', self.n))]
        return self.bind(self.seqeval(exprs, st, fr), k)

    # ---- comprehensions
    def e_ListComp(self, e, st, fr):
        def fin(s, c):
            s = s.copy()
            return [(s, self.new_list(s, c))]
        return self.comp(e, [e.elt], st, fr, fin)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, [e.elt], st, fr, lambda s, c: [(s, c)] if c[0] != 'L' else self._gen_known(s, c))

    def _gen_known(self, s, c):
        return [(s, tup(*c[1:]))]

    def e_SetComp(self, e, st, fr):
        def fin(s, c):
            s = s.copy()
            o = self.fresh('set')
            s.store[(o, '#c')] = c
            return [(s, o)]
        return self.comp(e, [e.elt], st, fr, fin)

    def pairs(self, s, items):
        """content of a dictionary made of (tup, key, value) items: the last value of equal keys counts"""
        out = {}
        for x in items:
            k = self.freeze(s, x[1])
            out[k] = (out[k][0] if k in out else x[1], x[2])
        return ('D',) + tuple(out.values())

    def e_DictComp(self, e, st, fr):
        def fin(s, c):
            s = s.copy()
            if c[0] == 'L':
                d = self.new_dict(s, self.pairs(s, c[1:]))
            else:
                d = self.new_dict(s, ('dictof', c))
            return [(s, d)]
        return self.comp(e, [ast.Tuple(elts=[e.key, e.value], ctx=ast.Load(), lineno=e.lineno, col_offset=0)], st, fr,
                         fin)

    def comp(self, e, elts, st, fr, fin):
        """comprehension -> content term"""
        cfr = self.new_frame(fr['func'], fr['module'], fr, self.target_names(e))
        elt = elts[0]

        def gen(i, s):
            # -> [(state, content)]
            if i == len(e.generators):
                return [(s2, v if isinstance(v, Raise) else ('L', v)) for s2, v in self.eval(elt, s, cfr)]
            g = e.generators[i]
            res = []
            for s2, itv in self.eval(g.iter, s, fr if i == 0 else cfr):
                if isinstance(itv, Raise):
                    res.append((s2, itv))
                    continue
                items = self.known_items(itv, s2)
                if items is not None:
                    outs = [(s2, EMPTY_L)]
                    for it in items:
                        nxt = []
                        for s3, c in outs:
                            if isinstance(c, Raise):
                                nxt.append((s3, c))
                                continue
                            for s4, r in self.assign(g.target, it, s3, cfr):
                                for s5, ok in self.conds(g.ifs, s4, cfr):
                                    if isinstance(ok, Raise):
                                        nxt.append((s5, ok))
                                    elif not ok:
                                        nxt.append((s5, c))
                                    else:
                                        for s6, c2 in gen(i + 1, s5):
                                            nxt.append((s6, c2 if isinstance(c2, Raise) else self.cat(c, c2)))
                        outs = nxt
                    res.extend(outs)
                else:
                    res.extend(self.comp_unknown(itv, g, i, gen, s2, cfr))
            return res
        return self.bind(gen(0, st), fin)

    def conds(self, ifs, st, fr):
        outs = [(st, True)]
        for c in ifs:
            nxt = []
            for s, ok in outs:
                if isinstance(ok, Raise) or not ok:
                    nxt.append((s, ok))
                    continue
                for s2, v in self.eval(c, s, fr):
                    if isinstance(v, Raise):
                        nxt.append((s2, v))
                    else:
                        nxt.extend(self.truth(v, s2))
            outs = nxt
        return outs

    def comp_unknown(self, itv, g, i, gen, st, cfr):
        it = self.iterterm(itv, st)
        depth = sum(1 for x in self.loops if x == self.base_iter(it))
        el = self.elem_of(it, depth)
        self.loops.append(self.base_iter(it))
        res, entries, evs = [], [], []
        ev0 = len(st.events)
        try:
            outs = []
            for s, r in self.assign(g.target, el, st.copy(), cfr):
                if isinstance(r, Raise):
                    res.append((s, r))
                    continue
                for s2, ok in self.conds(g.ifs, s, cfr):
                    if isinstance(ok, Raise):
                        res.append((s2, ok))
                    elif not ok:
                        outs.append((s2, None))
                    else:
                        outs.extend(gen(i + 1, s2))
        finally:
            self.loops.pop()
        post = st.copy()
        for s, c in outs:
            if isinstance(c, Raise):
                res.append((s, c))
                continue
            cond = self.newfacts(st, s)
            evs.append((cond, s.events[ev0:], 'next'))
            if c is not None:
                entries.append((cond, c))
            for k, v in s.store.items():
                if post.store.get(k) != v and not (isinstance(k[0], tuple) and k[0] == cfr['id']):
                    post.store[k] = v
        flat = []
        for cond, c in entries:
            c = self._freeze_in(st, c) if False else c
            if c[0] == 'L' and len(c) == 2:
                flat.append((cond, c[1]))
            else:
                flat.append((cond, ('splat', c)))
        # unconditional single entry
        if len(flat) > 1 and len({v for _, v in flat}) == 1 and len(flat) == len(outs):
            flat = [((), flat[0][1])]
        elif len(flat) == 1 and len(outs) == 1:
            flat = [((), flat[0][1])]
        flat2 = tuple((cond, self.freeze(post, v)) for cond, v in flat)
        if any(x[1] for x in evs):
            post.ev('loop', it, tuple(evs), self.line)
        if len(flat2) == 1 and flat2[0][0] == () and flat2[0][1] == el:
            content = it if it[0] not in ('content',) else it
        else:
            content = ('map', flat2, it)
        res.append((post, content))
        return res

    def newfacts(self, st, s):
        return tuple(sorted(((k, v) for k, v in s.facts.items() if st.facts.get(k) != v), key=repr))

    @staticmethod
    def target_names(node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
        return out

    # ---- calls
    def eval_args(self, args, st, fr):
        return self.seqeval(args, st, fr)

    def e_Call(self, e, st, fr):
        line = e.lineno
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.keywords:
            func = fr['func']
            f2 = fr
            while f2 is not None and not getattr(f2['func'], 'cls', None):
                f2 = f2['parent']
            cls = func.cls if func else None
            # first argument of the enclosing method
            g = fr
            while g['parent'] is not None and g.get('self') is None:
                g = g['parent']
            if len(e.args) == 2:
                return self.bind(self.seqeval(e.args, st, fr),
                                 lambda s, vs: [(s, ('super', vs[0][1], vs[1]))])
            if cls is None or g.get('self') is None:
                raise Unsupported('super() outside method')
            return [(st, ('super', cls.key, g['self']))]

        def withf(s, f):
            def witha(s2, args):
                kws = [k for k in e.keywords]

                def withk(s3, kvs):
                    a2 = []
                    for a in args:
                        if a[0] == 'star':
                            items = self.known_items(a[1], s3)
                            if items is None:
                                a2.append(a)
                            else:
                                a2 += items
                        else:
                            a2.append(a)
                    kw = []
                    for k, v in zip(kws, kvs):
                        if k.arg is None:
                            if self.kind_of(v) == 'dict' and self.content(s3, v)[0] == 'D':
                                for kk, vv in self.content(s3, v)[1:]:
                                    kw.append((kk[2], vv))
                            else:
                                kw.append(('**', v))
                        else:
                            kw.append((k.arg, v))
                    self.line = line
                    return self.call(f, tuple(a2), tuple(kw), s3, line)
                return self.bind(self.seqeval([k.value for k in kws], s2, fr), withk)
            return self.bind(self.seqeval(e.args, s, fr), witha)
        return self.bind(self.eval(e.func, st, fr), withf)

    def opaque(self, f, args, kwargs, st):
        return f.key in self.opaque_fns or f.name in self.opaque_fns or \
            (f.cls is not None and f'{f.cls.name}.{f.name}' in self.opaque_fns)

    def call(self, f, args, kwargs, st, line=0):
        self.line = line or self.line
        self.tick()
        h = f[0]
        if h == 'bm':
            return self.call(f[1], (f[2],) + tuple(args), kwargs, st, line)
        if h == 'fn':
            func = self.p.funcs[f[1]]
            return self.call_func(func, None, args, kwargs, st, line)
        if h == 'clo':
            c = self.clos[f[1]]
            return self.call_func(c.func, c, args, kwargs, st, line)
        if h == 'extdeco':
            outs = self.call(f[2], args, kwargs, st, line)
            if f[1].startswith('functools.') and 'cache' in f[1]:
                for s2, v in outs:
                    if not isinstance(v, Raise):
                        self.cached_terms[v] = f[1]
                        self.cached_terms[self.freeze(s2, v)] = f[1]
            return outs
        if h == 'cls':
            return self.instantiate(f, args, kwargs, st, line)
        if h == 'bext':
            return self.call_bext(f[1], f[2], args, kwargs, st, line)
        if h == 'ext':
            return self.call_ext(f[1], args, kwargs, st, line)
        if h == 'extcls':
            return self.call_bext(f[2], args[0], args[1:], kwargs, st, line)
        if h == 'partial':
            return self.call(f[1], f[2] + tuple(args), f[3] + tuple(kwargs), st, line)
        if h == 'attr':
            return self.call_method_sym(f[1], f[2], args, kwargs, st, line)
        if h == 'choice':
            raise Unsupported('call of choice')
        if h == 'c':
            return [(st, Raise('TypeError', line, True))]
        cls = self.typeof(f)
        if cls is not None:
            r = self.p.lookup(cls, '__call__')
            if r is not None:
                return self.call(('bm', self.func_val(r[1][1]), f), args, kwargs, st, line)
        s = st.copy()
        t = ('call', f, tuple(self.freeze(s, a) for a in args), tuple((k, self.freeze(s, v)) for k, v in kwargs))
        s.ev('call', f, args, kwargs, line)
        return self.maybe_raise(s, t, 'dyn')

    def maybe_raise(self, s, v, name):
        if self.may_raise(name):
            s2 = s.copy()
            return [(s, v), (s2, Raise('Exception', self.line, True))]
        return [(s, v)]

    def new_frame(self, func, module, parent, locs, globs=()):
        self.n += 1
        return {'id': ('frame', self.n), 'locals': locs, 'globals': globs, 'parent': parent, 'module': module,
                'func': func, 'self': None}

    def local_names(self, node):
        cache = getattr(self, '_ln', None)
        if cache is None:
            cache = self._ln = {}
        k = id(node)
        if k in cache:
            return cache[k][1]
        names, globs = set(), set()

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        names.add(x.target.id)
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                globs.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add((a.asname or a.name).split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            for ch in ast.iter_child_nodes(n):
                walk(ch)
        if isinstance(node, ast.Lambda):
            pass
        else:
            for s in node.body:
                walk(s)
        r = (names - globs, globs)
        cache[k] = (node, r)
        return r

    def call_func(self, func, clo, args, kwargs, st, line=0):
        if self.call_hook:
            r = self.call_hook(self, func, args, kwargs, st, line)
            if r is not None:
                return r
        if self.opaque(func, args, kwargs, st) or self.stack.count(func.key) >= self.max_rec or \
                len(self.stack) >= self.max_depth:
            s = st.copy()
            t = ('call', func.key, tuple(self.freeze(s, a) for a in args),
                 tuple((k, self.freeze(s, v)) for k, v in kwargs))
            s.ev('call', ('fn', func.key), args, kwargs, line)
            return self.maybe_raise(s, t, func.key)
        node = func.node
        gen = self.gens.get(id(node))
        if gen is None:
            gen = self.gens[id(node)] = any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node))
        if gen:
            raise Unsupported('generator ' + func.key)
        locs, globs = self.local_names(node)
        parent = clo.frame if clo else None
        fr = self.new_frame(func, func.module, parent, set(locs), globs)
        s = st.copy()
        b = self.bind_params(func, clo, args, kwargs, s, fr)
        if b is not None:
            return [(s, b)]
        self.analysed.add(func.key)
        self.stack.append(func.key)
        saved = self.line
        try:
            if isinstance(node, ast.Lambda):
                outs = self.eval(node.body, s, fr)
                return outs
            res = []
            for s2, sig in self.exec_block(node.body, s, fr):
                if sig is None:
                    res.append((s2, NONE))
                elif isinstance(sig, Raise):
                    res.append((s2, sig))
                elif sig[0] == 'return':
                    res.append((s2, sig[1]))
                else:
                    raise Unsupported('signal ' + str(sig))
            return self.dedupe(res, fr)
        finally:
            self.stack.pop()
            self.line = saved

    def dedupe(self, outs, fr=None):
        """merge outcomes that agree on everything"""
        if len(outs) <= 1:
            return outs
        if len(outs) > self.path_limit:
            raise Limit('too many paths')
        return outs

    def bind_params(self, func, clo, args, kwargs, s, fr):
        """bind arguments; returns Raise on arity mismatch"""
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        mg = func.cls.mangle if func.cls else (lambda n: n)
        store = s.store
        fid = fr['id']
        names = pos + [x.arg for x in a.kwonlyargs]
        fr['locals'] |= {mg(n) for n in names}
        if a.vararg:
            fr['locals'].add(a.vararg.arg)
        if a.kwarg:
            fr['locals'].add(a.kwarg.arg)
        args = list(args)
        star = None
        plain = []
        for i, x in enumerate(args):
            if x[0] == 'star':
                star = i
                break
            plain.append(x)
        bound = {}
        if star is not None:
            rest = args[star:]
            if len(rest) == 1 and len(plain) >= len(pos) and a.vararg:
                pass
            elif a.vararg and len(pos) <= len(plain):
                pass
            else:
                # positional params bound to items of the unknown sequence
                seq = rest[0][1]
                if len(rest) > 1:
                    raise Unsupported('complex star call')
                i = 0
                kwn = {k for k, _ in kwargs}
                while len(plain) < len(pos) and pos[len(plain)] not in kwn:
                    plain.append(('idx', self.iterterm(seq, s), C(i)))
                    i += 1
                rest = [('star', ('idx', self.iterterm(seq, s), ('slice', C(i), NONE, NONE)))]
        else:
            rest = []
        extra = []
        for i, x in enumerate(plain):
            if i < len(pos):
                bound[pos[i]] = x
            else:
                extra.append(x)
        if (extra or (rest and len(plain) >= len(pos) and not a.vararg and star is not None and False)) and not a.vararg:
            return Raise('TypeError', self.line, True)
        kwextra = []
        starkw = None
        for k, v in kwargs:
            if k == '**':
                starkw = v
            elif k in names and k not in bound:
                bound[k] = v
            elif k in bound and k in names:
                return Raise('TypeError', self.line, True)
            else:
                kwextra.append((k, v))
        if kwextra and not a.kwarg:
            return Raise('TypeError', self.line, True)
        # defaults
        if clo is not None:
            dvals = dict(zip(pos[len(pos) - len(clo.defaults):], clo.defaults))
            for x, v in zip(a.kwonlyargs, clo.kwdefaults):
                if v is not None:
                    dvals[x.arg] = v
        else:
            dvals = self.default_vals(func)
        for n in names:
            if n not in bound:
                if n in dvals:
                    bound[n] = dvals[n]
                elif starkw is not None:
                    bound[n] = ('idx', starkw, C(n))
                else:
                    return Raise('TypeError', self.line, True)
        for n, v in bound.items():
            store[(fid, mg(n))] = v
        if pos and func.cls is not None and pos[0] in bound:
            fr['self'] = bound[pos[0]]
        if a.vararg:
            if rest:
                c = EMPTY_L
                for x in extra:
                    c = self.cat(c, ('L', x))
                for x in rest:
                    c = self.cat(c, self.iterterm(x[1], s) if x[0] == 'star' else ('L', x))
                if c[0] == 'L':
                    store[(fid, a.vararg.arg)] = tup(*c[1:])
                elif c[0] == 'cat':
                    o = self.fresh('list')
                    store[(o, '#c')] = c
                    store[(fid, a.vararg.arg)] = o
                else:
                    store[(fid, a.vararg.arg)] = c
            else:
                store[(fid, a.vararg.arg)] = tup(*extra)
        if a.kwarg:
            d = self.fresh('dict')
            if starkw is not None:
                self.store_dict(store, d, kwextra, starkw)
            else:
                store[(d, '#c')] = ('D',) + tuple((C(k), v) for k, v in kwextra)
            store[(fid, a.kwarg.arg)] = d
        return None

    def store_dict(self, store, d, kwextra, starkw):
        c = ('content', starkw)
        for k, v in kwextra:
            c = ('put', c, C(k), v)
        store[(d, '#c')] = c

    def default_vals(self, func):
        cache = getattr(self, '_defaults', None)
        if cache is None:
            cache = self._defaults = {}
        if func.key in cache:
            return cache[func.key]
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        fr = self.module_frame(func.module, func.cls)
        for n, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            st = State()
            o = self.eval(d, st, fr)
            s, v = o[0]
            if isinstance(v, Raise):
                continue
            self.base.update(s.store.whole())
            if v[0] == 'obj':
                self.info[v[1]].label = f'default:{func.key}:{n}'
            out[n] = v
        cache[func.key] = out
        return out

    def instantiate(self, f, args, kwargs, st, line):
        c = self.p.classes[f[1]]
        if self.call_hook:
            r = self.call_hook(self, c, args, kwargs, st, line)
            if r is not None:
                return r
        s = st.copy()
        if c.name in self.dict_classes:
            o = self.fresh('dict', c)
            if not args:
                s.store[(o, '#c')] = ('D',) + tuple((C(k), v) for k, v in kwargs if k != '**')
            else:
                s.store[(o, '#c')] = self._freeze_in(s, self.content(s, args[0])) if self.is_dictlike(args[0]) \
                    else ('dictof', self.iterterm(args[0], s))
            return [(s, o)]
        o = self.fresh('inst', c, args=args, kwargs=kwargs)
        if c.name in self.inline_classes or c.key in self.inline_classes:
            r = self.p.lookup(c, '__init__')
            if r is None:
                return [(s, o)]
            return self.bind(self.call(self.func_val(r[1][1]), (o,) + tuple(args), kwargs, s, line),
                             lambda s2, _: [(s2, o)])
        s.ev('new', o, c.key, args, kwargs, line)
        return [(s, o)]

    # ------------------------------------------------------------------ builtin container methods
    def call_bext(self, name, v, args, kwargs, st, line):
        k = self.kind_of(v)
        if v[0] == 'c' and v[1] == 'str':
            if all(is_c(a) for a in args) and not kwargs:
                try:
                    r = getattr(v[2], name)(*[a[2] for a in args])
                    if isinstance(r, list):
                        s = st.copy()
                        return [(s, self.new_list(s, ('L',) + tuple(C(x) for x in r)))]
                    return [(st, C(r))]
                except Exception:
                    pass
            if name == 'join' and args:
                items = self.known_items(args[0], st)
                if items is not None and all(is_c(x) for x in items):
                    return [(st, C(v[2].join(x[2] for x in items)))]
            return [(st, ('mcall', v, name, tuple(self.freeze(st, a) for a in args), ()))]
        dictlike = k == 'dict' or self.is_dictlike(v)
        if v[0] == 'obj' and k == 'inst' and not dictlike or (not dictlike and k is None and v[0] != 'tup'):
            if name in ('__init__', '__init_subclass__'):
                return [(st, NONE)]
            if name == '__setattr__' and len(args) == 2 and is_c(args[0]):
                s = st.copy()
                s.store[(v, args[0][2])] = args[1]
                s.ev('w', v, args[0][2], args[1], line)
                return [(s, NONE)]
            if name == '__getattribute__' and len(args) == 1 and is_c(args[0]):
                ov = self.sget(st, (v, args[0][2]))
                return [(st, ov if ov is not None else ('attr', v, args[0][2]))]
            return self.call_method_sym(v, name, args, kwargs, st, line)
        s = st.copy()
        c = self.content(s, v)
        F = lambda x: self.freeze(s, x)
        if dictlike:
            fc = c
            if name == '__init__':
                if not args and not kwargs:
                    if k == 'dict':
                        s.store[(v, '#c')] = EMPTY_D
                    return [(s, NONE)]
                s.ev('mut', v, name, args, line)
                return [(s, NONE)]
            if name in ('keys', 'values', 'items'):
                return [(s, (name, fc))]
            if name in ('get', '__getitem__', 'pop', 'setdefault'):
                r = self.dict_lookup(c, args[0], s) if args else None
                default = args[1] if len(args) > 1 else dict(kwargs).get('default', NONE)
                known_absent = c[0] == 'D' and r is None and \
                    all(self.differ(F(kk), F(args[0])) for kk, _ in c[1:]) if args else False
                if name == 'pop':
                    s.ev('mut', v, 'pop', args, line)
                    if c[0] == 'D' and (r is not None or known_absent):
                        s.store[(v, '#c')] = ('D',) + tuple(kv for kv in c[1:] if F(kv[0]) != F(args[0]))
                    else:
                        s.store[(v, '#c')] = ('del', c, F(args[0]))
                if r is not None:
                    return [(s, r)]
                if known_absent:
                    if name in ('__getitem__',) or (name == 'pop' and len(args) < 2):
                        return [(s, Raise('KeyError', line, True))]
                    if name == 'setdefault':
                        return self.bind(self.dict_put(v, args[0], default, s), lambda s2, _: [(s2, default)])
                    return [(s, default)]
                base = v if k != 'dict' else self._freeze_in(s, c)
                if name == '__getitem__':
                    return self.getitem(v, args[0], s, line)
                if name == 'setdefault':
                    s.ev('mut', v, name, args, line)
                    s.store[(v, '#c')] = ('putd', c, F(args[0]), F(default))
                fi = F(args[0])
                if name == 'get' and fi[0] == 'elem' and fi[1] == ('keys', self._freeze_in(s, c)):
                    return [(s, ('elem', ('values', fi[1][1])) + fi[2:])]
                if name == 'pop' and len(args) < 2:
                    return [(s, ('idx', base, fi))]
                # key present or default
                outs = []
                for s2, b in self.atom(('in', fi, ('keys', self._freeze_in(s, c))), s):
                    outs.append((s2, ('idx', base, fi) if b else default))
                return outs
            if name == '__setitem__':
                return self.dict_put(v, args[0], args[1], s)
            if name == '__delitem__':
                s.ev('mut', v, 'pop', args, line)
                s.store[(v, '#c')] = ('del', c, F(args[0]))
                return [(s, NONE)]
            if name == '__contains__':
                return [(s, ('cmp', 'in', args[0], v))]
            if name == '__iter__':
                return [(s, ('keys', fc))]
            if name == '__len__':
                return [(s, ('len', v))]
            if name == 'clear':
                s.ev('mut', v, 'clear', (), line)
                s.store[(v, '#c')] = EMPTY_D
                return [(s, NONE)]
            if name == 'update':
                s.ev('mut', v, 'update', args, line)
                if args and self.kind_of(args[0]) == 'dict' and self.content(s, args[0])[0] == 'D' and c[0] == 'D':
                    for kk, vv in self.content(s, args[0])[1:]:
                        s = self.dict_put_quiet(v, kk, vv, s)[0][0]
                    for kk, vv in kwargs:
                        s = self.dict_put_quiet(v, C(kk), vv, s)[0][0]
                    return [(s, NONE)]
                s.store[(v, '#c')] = ('upd', c, *[self.iterterm(a, s) if not self.is_dictlike(a) else
                                                  self._freeze_in(s, self.content(s, a)) for a in args])
                return [(s, NONE)]
            if name == 'copy':
                o = self.fresh('dict', self.info[v[1]].cls if v[0] == 'obj' else self.typeof(v))
                s.store[(o, '#c')] = c
                return [(s, o)]
            if name == 'popitem':
                s.ev('mut', v, 'popitem', (), line)
                s.store[(v, '#c')] = ('del', c, ('lastkey',))
                return [(s, ('call', 'popitem', (c,), ()))]
        elif k == 'list':
            if name == 'append':
                s.ev('mut', v, 'append', args, line)
                s.store[(v, '#c')] = self.cat(c, ('L', args[0]))
                return [(s, NONE)]
            if name == 'extend' or name == '__iadd__':
                s.ev('mut', v, 'extend', args, line)
                items = self.known_items(args[0], s)
                s.store[(v, '#c')] = self.cat(c, ('L',) + tuple(items) if items is not None
                                              else self.iterterm(args[0], s))
                return [(s, NONE if name == 'extend' else v)]
            if name == 'insert':
                s.ev('mut', v, 'insert', args, line)
                if args[0] == C(0):
                    s.store[(v, '#c')] = self.cat(('L', args[1]), c)
                elif c[0] == 'L' and is_c(args[0]):
                    items = list(c[1:])
                    items.insert(args[0][2], args[1])
                    s.store[(v, '#c')] = ('L',) + tuple(items)
                else:
                    s.store[(v, '#c')] = ('inserted', c, F(args[0]), F(args[1]))
                return [(s, NONE)]
            if name == 'pop':
                s.ev('mut', v, 'pop', args, line)
                i = args[0] if args else C(-1)
                if c[0] == 'L' and is_c(i):
                    items = list(c[1:])
                    if not -len(items) <= i[2] < len(items):
                        return [(s, Raise('IndexError', line, True))]
                    x = items.pop(i[2])
                    s.store[(v, '#c')] = ('L',) + tuple(items)
                    return [(s, x)]
                s.store[(v, '#c')] = ('popped', c, F(i))
                return [(s, ('idx', self._freeze_in(s, c), F(i)))]
            if name == 'clear':
                s.ev('mut', v, 'clear', (), line)
                s.store[(v, '#c')] = EMPTY_L
                return [(s, NONE)]
            if name == 'reverse':
                s.ev('mut', v, 'reverse', (), line)
                s.store[(v, '#c')] = ('L',) + c[1:][::-1] if c[0] == 'L' else ('reversed', c)
                return [(s, NONE)]
            if name == 'copy':
                return [(s, self.new_list(s, c))]
            if name in ('index', 'remove') and c[0] == 'L' and len(args) == 1:
                for n, x in enumerate(c[1:]):
                    if F(x) == F(args[0]):
                        if name == 'index':
                            return [(s, C(n))]
                        s.ev('mut', v, name, args, line)
                        s.store[(v, '#c')] = ('L',) + c[1:n + 1] + c[n + 2:]
                        return [(s, NONE)]
                    if not self.differ(F(x), F(args[0])):
                        break
                else:
                    return [(s, Raise('ValueError', line))]
            if name in ('sort', 'remove', '__setitem__', '__delitem__'):
                s.ev('mut', v, name, args, line)
                if name == '__setitem__':
                    return self.setitem(v, args[0], args[1], st, line)
                s.store[(v, '#c')] = ('op', name, self._freeze_in(s, c), tuple(F(a) for a in args))
                return [(s, NONE)]
            if name == 'index':
                return [(s, ('mcall', self._freeze_in(s, c), 'index', tuple(F(a) for a in args), ()))]
            if name == '__contains__':
                return [(s, ('cmp', 'in', args[0], v))]
            if name == '__getitem__':
                return self.getitem(v, args[0], s, line)
            if name == '__len__':
                return [(s, ('len', v))]
        elif k == 'set':
            if name in MUTATORS:
                s.ev('mut', v, name, args, line)
                if name == 'add' and c[0] == 'L':
                    s.store[(v, '#c')] = c if args[0] in c[1:] else c + (args[0],)
                else:
                    s.store[(v, '#c')] = ('op', name, self._freeze_in(s, c), tuple(F(a) for a in args))
                return [(s, NONE)]
        if name in MUTATORS:
            s.ev('mut', v, name, args, line)
            s.store[(v, '#c')] = ('op', name, self._freeze_in(s, c), tuple(F(a) for a in args))
            return [(s, NONE)]
        return [(s, ('mcall', F(v), name, tuple(F(a) for a in args), tuple((kk, F(x)) for kk, x in kwargs)))]

    def call_method_sym(self, base, name, args, kwargs, st, line):
        """method call on a value of unknown class"""
        s = st.copy()
        F = lambda x: self.freeze(s, x)
        if name in ('keys', 'values', 'items') and not args:
            return [(s, (name, self.content(s, base)))]
        if name in MUTATORS:
            s.ev('mut', base, name, args, line)
            c = self.content(s, base)
            if name == 'append':
                s.store[(base, '#c')] = self.cat(c, ('L', args[0]))
                return [(s, NONE)]
            if name == 'insert' and args and args[0] == C(0):
                s.store[(base, '#c')] = self.cat(('L', args[1]), c)
                return [(s, NONE)]
            if name == 'clear':
                s.store[(base, '#c')] = EMPTY_L
                return [(s, NONE)]
            if name == 'pop':
                s.store[(base, '#c')] = ('del', c, F(args[0]) if args else C(-1))
                return [(s, ('idx', base, F(args[0]) if args else C(-1)))]
            s.store[(base, '#c')] = ('op', name, c, tuple(F(a) for a in args))
            return [(s, ('mcall', F(base), name, tuple(F(a) for a in args), ()))]
        t = ('mcall', F(base) if base[0] != 'obj' or self.kind_of(base) != 'inst' else base, name,
             tuple(F(a) for a in args), tuple((k, F(v)) for k, v in kwargs))
        s.ev('mcall', base, name, args, kwargs, line)
        return self.maybe_raise(s, t, name)

    # ------------------------------------------------------------------ external functions
    def call_ext(self, q, args, kwargs, st, line):
        if self.ext_hook:
            r = self.ext_hook(self, q, args, kwargs, st, line)
            if r is not None:
                return r
        m = getattr(self, 'x_' + q.replace('.', '_'), None)
        if m is not None:
            r = m(args, dict(kwargs), st, line)
            if r is not None:
                return r
        s = st.copy()
        F = lambda x: self.freeze(s, x)
        s.ev('xcall', q, args, kwargs, line)
        t = ('call', ('ext', q), tuple(F(a) for a in args), tuple((k, F(v)) for k, v in kwargs))
        return self.maybe_raise(s, t, q)

    def x_builtins_len(self, a, kw, st, line):
        items = self.known_items(a[0], st)
        if items is not None:
            return [(st, C(len(items)))]
        it = a[0]
        if it[0] in ('keys', 'values', 'items'):
            c = it[1]
            it = c[1] if c[0] == 'content' else c
            return [(st, ('len', it))]
        if self.kind_of(it) in ('list', 'dict', 'set'):
            c = self._freeze_in(st, self.content(st, it))
            if c[0] == 'content':
                c = c[1]
            while c[0] in ('keys', 'values', 'items'):
                c = c[1]
                if c[0] == 'content':
                    c = c[1]
            return [(st, ('len', c))]
        ov = self.sget(st, (it, '#c'))
        if ov is not None:
            return [(st, ('len', self._freeze_in(st, ov)))]
        cls = self.typeof(it)
        if cls is not None:
            r = self.p.lookup(cls, '__len__')
            if r:
                return self.call(('bm', self.func_val(r[1][1]), it), (), (), st)
        return [(st, ('len', it))]

    def x_builtins_range(self, a, kw, st, line):
        a = tuple(self.freeze(st, x) for x in a)
        if len(a) == 2 and a[0] == C(0):
            a = (a[1],)
        if len(a) == 3 and a[2] == C(1):
            a = a[:2] if a[0] != C(0) else (a[1],)
        return [(st, ('range',) + a)]

    def x_builtins_list(self, a, kw, st, line):
        s = st.copy()
        if not a:
            return [(s, self.new_list(s, EMPTY_L))]
        items = self.known_items(a[0], s)
        return [(s, self.new_list(s, ('L',) + tuple(items) if items is not None else self.iterterm(a[0], s)))]

    def x_builtins_tuple(self, a, kw, st, line):
        if not a:
            return [(st, tup())]
        items = self.known_items(a[0], st)
        if items is not None:
            return [(st, tup(*items))]
        return [(st, self.iterterm(a[0], st))]

    def x_builtins_set(self, a, kw, st, line):
        s = st.copy()
        o = self.fresh('set')
        if not a:
            s.store[(o, '#c')] = EMPTY_L
        else:
            items = self.known_items(a[0], s)
            if items is not None:
                items = list({self.freeze(s, x): x for x in items}.values())
            s.store[(o, '#c')] = ('L',) + tuple(items) if items is not None else self.iterterm(a[0], s)
        return [(s, o)]

    def x_builtins_dict_fromkeys(self, a, kw, st, line):
        items = self.known_items(a[0], st)
        if items is None:
            return None
        s = st.copy()
        d = self.new_dict(s, self.pairs(s, [('tup', x, a[1] if len(a) > 1 else NONE) for x in items]))
        return [(s, d)]

    def x_builtins_dict(self, a, kw, st, line):
        s = st.copy()
        if not a:
            return [(s, self.new_dict(s, ('D',) + tuple((C(k), v) for k, v in kw.items())))]
        if self.is_dictlike(a[0]):
            d = self.new_dict(s, self.content(s, a[0]))
        else:
            items = self.known_items(a[0], s)
            if items is not None and all(x[0] == 'tup' and len(x) == 3 for x in items):
                d = self.new_dict(s, self.pairs(s, items))
            else:
                d = self.new_dict(s, ('dictof', self.iterterm(a[0], s)))
        for k, v in kw.items():
            s = self.dict_put_quiet(d, C(k), v, s)[0][0]
        return [(s, d)]

    def x_collections_defaultdict(self, a, kw, st, line):
        s = st.copy()
        d = self.new_dict(s)
        self.info[d[1]].label = 'defaultdict:' + (show(a[0]) if a else '')
        self.info[d[1]].args = (a[0],) if a and a[0] != NONE else ()
        return [(s, d)]

    def x_collections_OrderedDict(self, a, kw, st, line):
        return self.x_builtins_dict(a, kw, st, line)

    def type_terms(self, t, st):
        items = self.known_items(t, st)
        if items is not None:
            out = frozenset()
            for x in items:
                y = self.type_terms(x, st)
                if y is None:
                    return None
                out |= y
            return out
        if t[0] in ('cls', 'ext'):
            return frozenset([t])
        if t == NONE:
            return frozenset([self.ext('builtins.NoneType')])
        if t[0] == 'call' and t[1] == ('ext', 'builtins.type') and t[2] == (NONE,):
            return frozenset([self.ext('builtins.NoneType')])
        if t[0] == 'bin' and t[1] == '|':
            x, y = self.type_terms(t[2], st), self.type_terms(t[3], st)
            return None if x is None or y is None else x | y
        return None

    def x_builtins_isinstance(self, a, kw, st, line):
        ts = self.type_terms(a[1], st)
        if ts is None:
            return [(st, ('isinst', a[0], frozenset([a[1]])))]
        v = ('isinst', a[0], ts)
        d = self.decide_isinst(a[0], ts, st)
        if d is not None:
            return [(st, C(d))]
        return [(st, v)]

    def x_builtins_issubclass(self, a, kw, st, line):
        if a[0][0] == 'cls':
            ts = self.type_terms(a[1], st)
            if ts is not None:
                return [(st, C(any(self.type_sub(a[0], t) for t in ts)))]
        return [(st, ('subcls', a[0], a[1]))]

    def x_builtins_callable(self, a, kw, st, line):
        if a[0][0] in ('fn', 'clo', 'bm', 'cls', 'bext', 'partial'):
            return [(st, TRUE)]
        if is_c(a[0]):
            return [(st, FALSE)]
        return [(st, ('callable', a[0]))]

    def x_builtins_hasattr(self, a, kw, st, line):
        if is_c(a[1]):
            d = self.has_attr(a[0], a[1][2], st)
            if d is not None:
                return [(st, C(d))]
        return [(st, ('hasattr', a[0], a[1]))]

    def has_attr(self, v, name, st):
        if self.sget(st, (v, name)) is not None:
            return True
        if v[0] == 'cls':
            found = hasattr(object, name)
            for k in self.p.mro(self.p.classes[v[1]]):
                if isinstance(k, Class):
                    found = found or name in k.attrs or self.sget(st, (('cls', k.key), name)) is not None
                elif not found:
                    import builtins
                    t = getattr(builtins, str(k).split('.')[-1], None) if str(k).split('.')[0] in ('builtins', str(k)) else None
                    if not isinstance(t, type):
                        return None
                    found = hasattr(t, name)
            return found
        if v[0] == 'ext' and v[1].startswith('builtins.'):
            import builtins
            t = getattr(builtins, v[1][9:], None)
            if isinstance(t, type):
                return hasattr(t, name)
        if v == NONE or self.kset(st, v) == frozenset('N'):
            return False
        cls = self.typeof(v)
        if cls is not None and cls.name not in self.dict_classes:
            if self.p.lookup(cls, name) or self.p.has_slot(cls, name):
                return True
            if self.p.lookup(cls, '__getattribute__') is not None and self.p.lookup(cls, 'simulation') is not None:
                fc = self.p.cls('Simulation', False)
                if fc and (self.p.lookup(fc, name) or self.p.has_slot(fc, name)):
                    return True
                return False if (v[0] == 'obj' or self.exact_type(v)) else None
            if v[0] == 'obj' or self.exact_type(v):
                return False
            # no subclass has it either?
            for c in self.p.classes.values():
                if self.p.is_sub(c, cls) and (self.p.lookup(c, name) or self.p.has_slot(c, name)):
                    return None
            return False
        k = self.kind_of(v)
        if k in ('list', 'dict', 'set') or self.is_dictlike(v):
            return hasattr({'list': [], 'set': set()}.get(k, {}), name)
        if v[0] == 'c':
            return hasattr(v[2], name)
        return None

    def x_builtins_getattr(self, a, kw, st, line):
        if is_c(a[1]) and isinstance(a[1][2], str):
            if len(a) > 2:
                d = self.has_attr(a[0], a[1][2], st)
                if d is False:
                    return [(st, a[2])]
                if d is None:
                    res = []
                    for s, b in self.atom(('hasattr', a[0], a[1]), st):
                        res.extend(self.getattr(a[0], a[1][2], s, line) if b else [(s, a[2])])
                    return res
            return self.getattr(a[0], a[1][2], st, line)
        fa = self.freeze(st, a[1])
        ov = self.sget(st, (a[0], ('dyn', fa)))
        if ov is not None:
            return [(st, ov)]
        return [(st, ('dynattr', a[0], fa))]

    def x_builtins_setattr(self, a, kw, st, line):
        if is_c(a[1]) and isinstance(a[1][2], str):
            return self.setattr(a[0], a[1][2], a[2], st, line)
        s = st.copy()
        fa = self.freeze(s, a[1])
        s.store[(a[0], ('dyn', fa))] = a[2]
        s.ev('wdyn', a[0], fa, a[2], line)
        return [(s, NONE)]

    def x_builtins_delattr(self, a, kw, st, line):
        s = st.copy()
        s.ev('w', a[0], a[1][2] if is_c(a[1]) else '?', ('unbound',), line)
        return [(s, NONE)]

    def x_builtins_enumerate(self, a, kw, st, line):
        x = a[0]
        items = self.known_items(x, st)
        start = a[1] if len(a) > 1 else kw.get('start', C(0))
        if items is not None and is_c(start):
            return [(st, tup(*[tup(C(start[2] + i), y) for i, y in enumerate(items)]))]
        it = self.iterterm(x, st)
        return [(st, ('enumerate', it) if start == C(0) else ('enumerate', it, start))]

    def x_builtins_zip(self, a, kw, st, line):
        its = [self.known_items(x, st) for x in a]
        if a and all(i is not None for i in its):
            return [(st, tup(*[tup(*xs) for xs in zip(*its)]))]
        return [(st, ('zip',) + tuple(x if x[0] in ('tup',) else self.iterterm(x, st) for x in a))]

    def x_builtins_reversed(self, a, kw, st, line):
        items = self.known_items(a[0], st)
        if items is not None:
            return [(st, tup(*items[::-1]))]
        it = self.iterterm(a[0], st)
        return [(st, it[1] if it[0] == 'reversed' else ('reversed', it))]

    def x_builtins_sorted(self, a, kw, st, line):
        return None

    def x_builtins_iter(self, a, kw, st, line):
        return [(st, a[0])]

    def x_builtins_next(self, a, kw, st, line):
        items = self.known_items(a[0], st)
        if items is not None:
            if items:
                return [(st, items[0])]
            return [(st, a[1])] if len(a) > 1 else [(st, Raise('StopIteration', line, True))]
        it = a[0]
        if it[0] == 'map':
            # first element satisfying the filter, or default
            outs = []
            for cond, v in it[1]:
                s = st.copy()
                for kk, vv in cond:
                    s.facts[kk] = vv
                s.facts[('nobreak', it[2])] = False
                s.ev('first', it[2], cond, line)
                outs.append((s, v))
            s = st.copy()
            s.facts[('nobreak', it[2])] = True
            outs.append((s, a[1] if len(a) > 1 else Raise('StopIteration', line, True)))
            return outs
        return [(st, ('idx', self.iterterm(it, st), C(0)))]

    def x_builtins_type(self, a, kw, st, line):
        if len(a) == 1:
            v = a[0]
            cls = self.typeof(v)
            if cls is not None and (v[0] == 'obj' or self.exact_type(v)):
                return [(st, ('cls', cls.key))]
            if cls is not None:
                return [(st, ('attr', v, '__class__'))]
            if v[0] == 'c':
                return [(st, self.ext('builtins.' + v[1]))]
            k = self.kind_of(v)
            if k in ('list', 'dict', 'set'):
                return [(st, self.ext('builtins.' + k))]
            return [(st, ('attr', v, '__class__'))]
        return None

    def x_builtins_bool(self, a, kw, st, line):
        if not a:
            return [(st, FALSE)]
        v = a[0]
        if v[0] in ('cmp', 'not', 'isinst', 'hasattr', 'callable'):
            return [(st, v)]
        return [(s, C(b)) for s, b in self.truth(v, st)]

    def x_builtins_int(self, a, kw, st, line):
        if a and is_c(a[0]) and isinstance(a[0][2], (int, float)):
            return [(st, C(int(a[0][2])))]
        return None

    def x_builtins_float(self, a, kw, st, line):
        if a and is_c(a[0]) and isinstance(a[0][2], (int, float)):
            return [(st, C(float(a[0][2])))]
        return None

    def x_builtins_str(self, a, kw, st, line):
        if a and is_c(a[0]):
            return [(st, C(str(a[0][2])))]
        if a and self.typeof(a[0]) is not None:
            r = self.p.lookup(self.typeof(a[0]), '__str__')
            if r:
                return self.call(('bm', self.func_val(r[1][1]), a[0]), (), (), st)
        return [(st, ('fstr', self.freeze(st, a[0])))] if a else [(st, C(''))]

    def x_builtins_print(self, a, kw, st, line):
        s = st.copy()
        s.ev('print', line)
        return [(s, NONE)]

    def x_warnings_warn(self, a, kw, st, line):
        s = st.copy()
        s.ev('warn', line)
        return [(s, NONE)]

    def x_builtins_id(self, a, kw, st, line):
        return [(st, ('id', a[0]))]

    def x_builtins_any(self, a, kw, st, line):
        return self.anyall(a[0], st, False)

    def x_builtins_all(self, a, kw, st, line):
        return self.anyall(a[0], st, True)

    def anyall(self, v, st, isall):
        items = self.known_items(v, st)
        if items is not None:
            outs = [(st, isall)]
            for it in items:
                nxt = []
                for s, b in outs:
                    if b == isall:
                        nxt.extend(self.truth(it, s))
                    else:
                        nxt.append((s, b))
                outs = nxt
            return [(s, C(b)) for s, b in outs]
        return [(st, ('all' if isall else 'any', self.iterterm(v, st)))]

    def x_builtins_sum(self, a, kw, st, line):
        items = self.known_items(a[0], st)
        start = a[1] if len(a) > 1 else kw.get('start', C(0))
        if items is not None:
            outs = [(st, start)]
            for it in items:
                outs = self.bind(outs, lambda s, v: self.binop('+', v, it, s))
            # 0 + x = x
            return [(s, v) for s, v in outs]
        return [(st, ('sum', self.iterterm(a[0], st), self.freeze(st, start)))]

    def x_builtins_max(self, a, kw, st, line):
        return self._minmax(max, a, kw, st)

    def x_builtins_min(self, a, kw, st, line):
        return self._minmax(min, a, kw, st)

    def _minmax(self, f, a, kw, st):
        items = list(a) if len(a) > 1 else self.known_items(a[0], st)
        if items and not kw and all(is_c(x) and isinstance(x[2], (int, float)) for x in items):
            return [(st, C(f(x[2] for x in items)))]
        return None

    def x_builtins_abs(self, a, kw, st, line):
        if is_c(a[0]):
            return [(st, C(abs(a[0][2])))]
        return None

    def x_builtins_map(self, a, kw, st, line):
        return self._map(a, st, line)

    def _map(self, a, st, line):
        if len(a) == 2:
            items = self.known_items(a[1], st)
            if items is not None:
                outs = [(st, ())]
                for it in items:
                    nxt = []
                    for s, vs in outs:
                        if isinstance(vs, Raise):
                            nxt.append((s, vs))
                            continue
                        for s2, v in self.call(a[0], (it,), (), s, line):
                            nxt.append((s2, v if isinstance(v, Raise) else vs + (v,)))
                    outs = nxt
                return [(s, v if isinstance(v, Raise) else tup(*v)) for s, v in outs]
            return self.map_unknown(a[0], a[1], st, line)
        return None

    def map_unknown(self, f, itv, st, line):
        it = self.iterterm(itv, st)
        depth = sum(1 for x in self.loops if x == self.base_iter(it))
        el = self.elem_of(it, depth)
        self.loops.append(self.base_iter(it))
        n0 = len(st.events)
        try:
            outs = self.call(f, (el,), (), st.copy(), line)
        finally:
            self.loops.pop()
        res, entries, evs = [], [], []
        post = st.copy()
        for s, v in outs:
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            cond = self.newfacts(st, s)
            evs.append((cond, s.events[n0:], 'next'))
            entries.append((cond, self.freeze(s, v)))
            for k, x in s.store.items():
                if post.store.get(k) != x:
                    post.store[k] = x
        if len(entries) > 1 and len({v for _, v in entries}) == 1:
            entries = [((), entries[0][1])]
        elif len(entries) == 1:
            entries = [((), entries[0][1])]
        if any(x[1] for x in evs):
            post.ev('loop', it, tuple(evs), line)
        res.append((post, ('map', tuple(entries), it)))
        return res

    def x_functools_reduce(self, a, kw, st, line):
        items = self.known_items(a[1], st)
        if items is not None:
            if len(a) > 2:
                outs = [(st, a[2])]
            else:
                if not items:
                    return [(st, Raise('TypeError', line, True))]
                outs = [(st, items[0])]
                items = items[1:]
            for it in items:
                outs = self.bind(outs, lambda s, acc: self.call(a[0], (acc, it), (), s, line))
            return outs
        it = self.iterterm(a[1], st)
        depth = len(self.loops)
        acc = ('lv', depth, 'reduce')
        self.loops.append(self.base_iter(it))
        try:
            outs = [(s, v) for s, v in self.call(a[0], (acc, self.elem_of(it, 0)), (), st.copy(), line)
                    if not isinstance(v, Raise)]
        finally:
            self.loops.pop()
        if len(outs) == 1:
            init = a[2] if len(a) > 2 else ('first', it)
            return [(st, ('fold', 'reduce', depth, self.freeze(st, init), self.freeze(outs[0][0], outs[0][1]), it))]
        return None

    def x_functools_partial(self, a, kw, st, line):
        return [(st, ('partial', a[0], tuple(a[1:]), tuple(kw.items())))]

    def x_functools_wraps(self, a, kw, st, line):
        return [(st, ('extwraps',))]

    def x_itertools_chain(self, a, kw, st, line):
        items = [self.known_items(x, st) for x in a]
        if all(i is not None for i in items):
            return [(st, tup(*[y for x in items for y in x]))]
        return [(st, ('chain',) + tuple(self.iterterm(x, st) for x in a))]

    def x_itertools_chain_from_iterable(self, a, kw, st, line):
        items = self.known_items(a[0], st)
        if items is not None:
            sub = [self.known_items(x, st) for x in items]
            if all(x is not None for x in sub):
                return [(st, tup(*[y for x in sub for y in x]))]
        return [(st, ('chain*', self.iterterm(a[0], st)))]

    def x_typing_cast(self, a, kw, st, line):
        return [(st, a[1])]

    def x_copy_copy(self, a, kw, st, line):
        s = st.copy()
        k = self.kind_of(a[0])
        if k == 'list':
            return [(s, self.new_list(s, self.content(s, a[0])))]
        if k == 'dict' or self.is_dictlike(a[0]):
            return self.call_bext('copy', a[0], (), (), s, line)
        return None

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        """-> [(state, signal)]; signal None | Raise | ('return', v) | ('break',) | ('continue',)"""
        outs = [(st, None)]
        for s in stmts:
            nxt = []
            for stt, sig in outs:
                if sig is not None:
                    nxt.append((stt, sig))
                else:
                    nxt.extend(self.exec(s, stt, fr))
            outs = nxt
            if len(outs) > self.path_limit:
                raise Limit('too many paths')
        return outs

    def exec(self, s, st, fr):
        self.tick()
        if hasattr(s, 'lineno'):
            self.line = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('stmt ' + type(s).__name__)
        return m(s, st, fr)

    @staticmethod
    def tosig(outs, f):
        return [(s, v if isinstance(v, Raise) else f(v)) for s, v in outs]

    def s_Pass(self, s, st, fr):
        return [(st, None)]

    def s_Global(self, s, st, fr):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Import(self, s, st, fr):
        stt = st.copy()
        for a in s.names:
            stt.store[(fr['id'], (a.asname or a.name).split('.')[0])] = \
                ('mod', a.name) if a.name in self.p.modules else self.ext(a.name if a.asname else a.name.split('.')[0])
        return [(stt, None)]

    def s_ImportFrom(self, s, st, fr):
        stt = st.copy()
        mod = self.p._abs(fr['module'], s.level, s.module)
        for a in s.names:
            if mod in self.p.modules:
                r = self.p.resolve_global(self.p.modules[mod], a.name)
                v = self.global_val(r, stt) if r else ('mod', f'{mod}.{a.name}')
            else:
                v = self.ext(f'{mod}.{a.name}')
            stt.store[(fr['id'], a.asname or a.name)] = v
        return [(stt, None)]

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return self.tosig(self.eval(s.value, st, fr), lambda v: None)

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ('return', NONE))]
        return self.tosig(self.eval(s.value, st, fr), lambda v: ('return', v))

    def s_Break(self, s, st, fr):
        return [(st, ('break',))]

    def s_Continue(self, s, st, fr):
        return [(st, ('continue',))]

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            return [(st, Raise('re-raise', s.lineno))]
        name = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        n = ast.unparse(name).split('.')[-1]
        return [(st, Raise(n, s.lineno))]

    def s_Assert(self, s, st, fr):
        res = []
        for s2, v in self.eval(s.test, st, fr):
            if isinstance(v, Raise):
                res.append((s2, v))
                continue
            for s3, b in self.truth(v, s2):
                res.append((s3, None if b else Raise('AssertionError', s.lineno)))
        return res

    def s_If(self, s, st, fr):
        res = []
        for s2, v in self.eval(s.test, st, fr):
            if isinstance(v, Raise):
                res.append((s2, v))
                continue
            for s3, b in self.truth(v, s2):
                res.extend(self.exec_block(s.body if b else s.orelse, s3, fr))
        return res

    def s_FunctionDef(self, s, st, fr):
        res = []
        for s2, v in self.make_closure(s, st, fr, s.name):
            for d in reversed(s.decorator_list):
                txt = ast.unparse(d)
                if txt.split('(')[0].endswith('wraps'):
                    continue
                outs = [(a, b) for a, b in self.eval(d, s2, fr) if not isinstance(b, Raise)]
                if len(outs) != 1:
                    raise Unsupported('nested decorator')
                s2, dv = outs[0]
                outs = [(a, b) for a, b in self.call(dv, (v,), (), s2) if not isinstance(b, Raise)]
                if len(outs) != 1:
                    raise Unsupported('nested decorator')
                s2, v = outs[0]
            s2 = s2.copy()
            s2.store[(fr['id'], s.name)] = v
            res.append((s2, None))
        return res

    def s_Delete(self, s, st, fr):
        outs = [(st, None)]
        for t in s.targets:
            nxt = []
            for s2, sig in outs:
                if sig is not None:
                    nxt.append((s2, sig))
                    continue
                if isinstance(t, ast.Name):
                    s3 = s2.copy()
                    s3.store[(fr['id'], t.id)] = ('unbound',)
                    nxt.append((s3, None))
                elif isinstance(t, ast.Subscript):
                    for s3, vs in self.seqeval([t.value, t.slice], s2, fr):
                        if isinstance(vs, Raise):
                            nxt.append((s3, vs))
                            continue
                        cls = self.typeof(vs[0])
                        if cls is not None and cls.name not in self.dict_classes and self.p.lookup(cls, '__delitem__'):
                            f = self.func_val(self.p.lookup(cls, '__delitem__')[1][1])
                            nxt.extend(self.tosig(self.call(('bm', f, vs[0]), (vs[1],), (), s3), lambda v: None))
                        elif self.kind_of(vs[0]) == 'dict' or self.is_dictlike(vs[0]):
                            nxt.extend(self.tosig(self.call_bext('__delitem__', vs[0], (vs[1],), (), s3, s.lineno),
                                                  lambda v: None))
                        else:
                            s4 = s3.copy()
                            s4.ev('mut', vs[0], '__delitem__', (vs[1],), s.lineno)
                            c = self.content(s4, vs[0])
                            s4.store[(vs[0], '#c')] = ('del', c, self.freeze(s4, vs[1]))
                            nxt.append((s4, None))
                elif isinstance(t, ast.Attribute):
                    for s3, v in self.eval(t.value, s2, fr):
                        if isinstance(v, Raise):
                            nxt.append((s3, v))
                            continue
                        s4 = s3.copy()
                        s4.ev('w', v, t.attr, ('unbound',), s.lineno)
                        nxt.append((s4, None))
                else:
                    raise Unsupported('del target')
            outs = nxt
        return outs

    def s_Assign(self, s, st, fr):
        res = []
        for s2, v in self.eval(s.value, st, fr):
            if isinstance(v, Raise):
                res.append((s2, v))
                continue
            outs = [(s2, NONE)]
            for t in s.targets:
                outs = self.bind(outs, lambda s3, _: self.assign(t, v, s3, fr))
            res.extend(self.tosig(outs, lambda v: None))
        return res

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, None)]
        res = []
        for s2, v in self.eval(s.value, st, fr):
            if isinstance(v, Raise):
                res.append((s2, v))
            else:
                res.extend(self.tosig(self.assign(s.target, v, s2, fr), lambda v: None))
        return res

    def assign(self, t, v, st, fr):
        """-> [(state, NONE|Raise)]"""
        if isinstance(t, ast.Name):
            s = st.copy()
            name = t.id
            if getattr(fr['func'], 'cls', None) is not None:
                name = fr['func'].cls.mangle(name)
            f = fr
            if name in fr['globals']:
                # nonlocal or global
                g = fr['parent']
                while g is not None and name not in g['locals']:
                    g = g['parent']
                if g is None:
                    s.ev('w', ('mod', fr['module'].name), name, v, self.line)
                    s.store[(('mod', fr['module'].name), name)] = v
                    return [(s, NONE)]
                f = g
            s.store[(f['id'], name)] = v
            return [(s, NONE)]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.known_items(v, st)
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                if items is None:
                    raise Unsupported('starred unpack')
                i = star[0]
                after = n - i - 1
                s = st.copy()
                mid = self.new_list(s, ('L',) + tuple(items[i:len(items) - after]))
                items = items[:i] + [mid] + (items[len(items) - after:] if after else [])
                st = s
            elif items is None:
                it = self.iterterm(v, st)
                items = [('idx', it, C(i)) for i in range(n)]
            if len(items) != n:
                return [(st, Raise('ValueError', self.line, True))]
            outs = [(st, NONE)]
            for tt, vv in zip(t.elts, items):
                tt = tt.value if isinstance(tt, ast.Starred) else tt
                outs = self.bind(outs, lambda s, _: self.assign(tt, vv, s, fr))
            return outs
        if isinstance(t, ast.Attribute):
            name = t.attr
            if getattr(fr['func'], 'cls', None) is not None:
                name = fr['func'].cls.mangle(name)
            line = t.lineno
            return self.bind(self.eval(t.value, st, fr), lambda s, b: self.setattr(b, name, v, s, line))
        if isinstance(t, ast.Subscript):
            line = t.lineno

            def k(s, b):
                outs = self.eval_slice(t.slice, s, fr) if isinstance(t.slice, ast.Slice) else self.eval(t.slice, s, fr)
                return self.bind(outs, lambda s2, i: self.setitem(b, i, v, s2, line))
            return self.bind(self.eval(t.value, st, fr), k)
        raise Unsupported('assign target')

    def s_AugAssign(self, s, st, fr):
        op = BINOPS[type(s.op)]
        load = ast.copy_location(type(s.target)(**{k: getattr(s.target, k) for k in s.target._fields}), s.target)
        load.ctx = ast.Load()
        res = []
        for s2, cur in self.eval(load, st, fr):
            if isinstance(cur, Raise):
                res.append((s2, cur))
                continue
            for s3, v in self.eval(s.value, s2, fr):
                if isinstance(v, Raise):
                    res.append((s3, v))
                    continue
                k = self.kind_of(cur)
                if k == 'list' and op == '+':
                    outs = self.call_bext('__iadd__', cur, (v,), (), s3, s.lineno)
                elif k == 'list' and op == '*':
                    s4 = s3.copy()
                    s4.ev('mut', cur, '__imul__', (v,), s.lineno)
                    outs = [(s4, cur)]
                elif (k == 'dict' or self.is_dictlike(cur)) and op == '|':
                    outs = [(a, cur) for a, b in self.call_bext('update', cur, (v,), (), s3, s.lineno)]
                elif is_c(cur):
                    outs = self.binop(op, cur, v, s3, s.lineno)
                else:
                    s4 = s3.copy()
                    s4.ev('inplace', cur, op, s.lineno)
                    outs = self.binop(op, cur, v, s4, s.lineno)
                for s5, r in outs:
                    if isinstance(r, Raise):
                        res.append((s5, r))
                    else:
                        res.extend(self.tosig(self.assign(s.target, r, s5, fr), lambda x: None))
        return res

    # ---- loops
    def s_For(self, s, st, fr):
        res = []
        for s2, itv in self.eval(s.iter, st, fr):
            if isinstance(itv, Raise):
                res.append((s2, itv))
                continue
            items = self.known_items(itv, s2)
            if items is not None and len(items) <= 64:
                res.extend(self.for_known(s, items, s2, fr))
            else:
                res.extend(self.for_unknown(s, itv, s2, fr))
        return res

    def for_known(self, s, items, st, fr):
        live = [st]
        res = []
        for it in items:
            nxt = []
            for stt in live:
                for s2, r in self.assign(s.target, it, stt, fr):
                    if isinstance(r, Raise):
                        res.append((s2, r))
                        continue
                    for s3, sig in self.exec_block(s.body, s2, fr):
                        if sig is None or sig == ('continue',):
                            nxt.append(s3)
                        elif sig == ('break',):
                            res.append((s3, None))
                        else:
                            res.append((s3, sig))
            live = nxt
            if len(live) > self.path_limit:
                raise Limit('too many paths')
        for stt in live:
            res.extend(self.exec_block(s.orelse, stt, fr) if s.orelse else [(stt, None)])
        return res

    def for_unknown(self, s, itv, st, fr):
        it = self.iterterm(itv, st)
        b = self.base_iter(it)
        depth = sum(1 for x in self.loops if x == b)
        el = self.elem_of(it, depth)

        def body(stt):
            outs = []
            for s2, r in self.assign(s.target, el, stt, fr):
                if isinstance(r, Raise):
                    outs.append((s2, r))
                else:
                    outs.extend(self.exec_block(s.body, s2, fr))
            return outs
        tn = self.target_names(s.target)
        return self.loop(it, b, body, s, st, fr, skip={(fr['id'], n) for n in tn}, final_elem=(tn, el))

    def s_While(self, s, st, fr):
        # bounded concrete unrolling when the condition is always decided
        lead = self.try_unroll_while(s, st, fr)
        if lead is not None:
            return lead
        marks = {}

        def body(stt):
            outs = []
            for s2, v in self.eval(s.test, stt, fr):
                if isinstance(v, Raise):
                    outs.append((s2, v))
                    continue
                for s3, b in self.truth(v, s2):
                    if b:
                        marks.setdefault('cond', v)
                        outs.extend(self.exec_block(s.body, s3, fr))
                    else:
                        outs.append((s3, ('exit',)))
            return outs
        return self.loop(('while', s.lineno), ('while', s.lineno), body, s, st, fr, marks=marks)

    def try_unroll_while(self, s, st, fr):
        live, res = [st], []
        for _ in range(self.unroll):
            nxt = []
            for stt in live:
                outs = self.eval(s.test, stt, fr)
                for s2, v in outs:
                    if isinstance(v, Raise):
                        res.append((s2, v))
                        continue
                    t = self.truth(v, s2)
                    if len(t) != 1:
                        return None
                    s3, b = t[0]
                    if not b:
                        res.extend(self.exec_block(s.orelse, s3, fr) if s.orelse else [(s3, None)])
                        continue
                    for s4, sig in self.exec_block(s.body, s3, fr):
                        if sig is None or sig == ('continue',):
                            nxt.append(s4)
                        elif sig == ('break',):
                            res.append((s4, None))
                        else:
                            res.append((s4, sig))
            live = nxt
            if not live:
                return res
        return None

    def loop(self, it, b, body, node, st, fr, skip=frozenset(), final_elem=None, marks=None):
        lvl = len(self.loops)
        n_start = self.n
        keys = {}
        self.loops.append(b)
        try:
            for _round in range(6):
                h = st.copy()
                for k in keys:
                    h.store[k] = keys[k]
                ev0 = len(h.events)
                ub = len(self.unbound_reads)
                outs = body(h)
                new = False
                for s2, sig in outs:
                    if isinstance(sig, Raise) or (sig is not None and sig[0] in ('return', 'exit', 'break')):
                        if sig is None or isinstance(sig, Raise) or sig[0] != 'break':
                            continue
                        continue
                    for k, v in s2.store.items():
                        if h.store.get(k) == v or k in keys or k in skip:
                            continue
                        base = k[0]
                        if base[0] == 'frame' and base[1] > n_start:
                            continue
                        if base[0] == 'obj' and base[1] > n_start:
                            continue
                        if mentions(base, lambda t: t[0] in ('elem', 'pos') and len(t) > 1 and
                                    self.base_iter_of(t) == b):
                            continue
                        if k not in st.store and base[0] == 'frame' and \
                                self.base.get(k) is None and not self.assigned_before(k, st):
                            # local first assigned inside the loop: not loop carried unless read before written
                            keys[k] = ('lv', lvl, self.keyname(k))
                            new = True
                            continue
                        keys[k] = ('lv', lvl, self.keyname(k))
                        if k in st.store:
                            ty = self.typeof(st.store[k]) if isinstance(st.store[k], tuple) else None
                            if ty is not None:
                                self.types[keys[k]] = ty
                        new = True
                if not new:
                    break
                del self.unbound_reads[ub:]
        finally:
            self.loops.pop()
        res = []
        cont = [(s2, sig) for s2, sig in outs if sig is None or sig == ('continue',)]
        exits = [(s2, sig) for s2, sig in outs if sig == ('exit',)]
        brk = [(s2, sig) for s2, sig in outs if sig == ('break',)]
        other = [(s2, sig) for s2, sig in outs if isinstance(sig, Raise) or (sig is not None and sig[0] == 'return')]
        # summary of the repeated part
        merged = {}
        for k in list(keys):
            vals = [(self.newfacts(h, s2), self.freeze_key(s2, s2.store.get(k))) for s2, _ in cont]
            if not vals:
                merged[k] = None
                continue
            vs = {v for _, v in vals}
            merged[k] = vals[0][1] if len(vs) == 1 else ('choice', tuple(vals))
        # induction variable of while loops
        itx = it
        sub = None
        if marks is not None and marks.get('cond'):
            c = marks['cond']
            if c[0] == 'cmp' and c[1] in ('<', '!=', '>'):
                lo, hi = (c[2], c[3]) if c[1] in ('<', '!=') else (c[3], c[2])
                for k, lv in keys.items():
                    if lo == lv and st.store.get(k) == C(0) and merged[k] == ('bin', '+', lv, C(1)) and \
                            not mentions(hi, lambda t: t[0] == 'lv' and t[1] == lvl):
                        itx = ('range', self.freeze(st, hi))
                        if hi[0] == 'len':
                            space = hi[1]
                            pos = ('pos', space)
                        else:
                            pos = ('elem', itx)
                        sub = (lv, pos, k)
        evs = tuple((self.newfacts(h, s2), s2.events[ev0:], 'next') for s2, _ in cont) + \
            tuple((self.newfacts(h, s2), s2.events[ev0:], 'break') for s2, _ in brk) + \
            tuple((self.newfacts(h, s2), s2.events[ev0:], 'raise' if isinstance(g, Raise) else 'return')
                  for s2, g in other)

        def rew(t):
            if sub is None:
                return t
            lv, pos, k = sub

            def f(x):
                if x == lv:
                    return pos
                if x[0] == 'idx' and x[2] == pos:
                    if pos[0] == 'pos' and (x[1] == pos[1] or x[1] == ('content', pos[1])):
                        return self.elem_of(pos[1], 0)
                return None
            return subst(t, f)
        if sub is not None:
            if itx[1][0] == 'len':
                itx = itx[1][1]
        evs = rew(evs)
        post = st.copy()
        for k, lv in keys.items():
            src = self.lv_src.setdefault(lv, set())
            for x in (st.store.get(k), merged.get(k)):
                if x is not None:
                    src.add(x)
        for k, lv in keys.items():
            init = st.store.get(k, self.base.get(k))
            if k not in st.store and k[0][0] == 'frame' and init is None:
                init = None
            new = merged[k]
            if new is None:
                continue
            new = rew(new)
            post.store[k] = self.summarise(lv, init, new, itx, keys, lvl, h, k)
            if sub is not None and k == sub[2]:
                post.store[k] = self.freeze(st, ('len', itx) if itx[0] != 'range' else itx[1])
        # writes to per-element objects and fresh objects persist
        for s2, _ in cont:
            for k, v in s2.store.items():
                if k in keys or h.store.get(k) == v:
                    continue
                if k in skip:
                    continue
                post.store[k] = rew(v) if isinstance(v, tuple) else v
        if cont or brk or other:
            if any(e[1] for e in evs):
                post.ev('loop', itx, evs, node.lineno)
        if final_elem is not None:
            for nme in final_elem[0]:
                post.store.setdefault((fr['id'], nme), ('lastelem', it, nme))
        # while: states that left through the condition
        done = []
        if marks is not None:
            for s2, _ in exits:
                p2 = post.copy()
                for kf, vf in self.newfacts(h, s2):
                    # facts on loop-carried values at exit
                    if not mentions(kf, lambda t: t[0] == 'lv' and t[1] == lvl):
                        p2.facts[kf] = vf
                done.append(p2)
            done = done[:1] if done else []
        else:
            done = [post]
        for p2 in done:
            if brk or any(sg is not None and not isinstance(sg, Raise) for _, sg in other):
                p2 = p2.copy()
                p2.facts[('nobreak', itx)] = True
            res.extend(self.exec_block(node.orelse, p2, fr) if node.orelse else [(p2, None)])
        for s2, sig in brk:
            q = s2.copy()
            q.events = st.events + ((('loop', itx, evs, node.lineno),) if any(e[1] for e in evs[:len(cont)]) else ()) \
                + s2.events[ev0:]
            for k, lv in keys.items():
                new = merged[k]
                init = st.store.get(k, self.base.get(k))
                unchanged = new is None or new == lv
                rep = init if unchanged and init is not None else None
                if rep is not None:
                    for kk, vv in list(q.store.items()):
                        if isinstance(vv, tuple) and vv and h.store.get(kk) is not vv or vv == lv:
                            q.store[kk] = subst(vv, lambda t: rep if t == lv else None)
            q.facts[('nobreak', itx)] = False
            res.append((q, None))
        for s2, sig in other:
            q = s2.copy()
            prior = tuple(e for e in evs if e[2] == 'next')
            q.events = st.events + ((('loop', itx, prior, node.lineno),) if any(e[1] for e in prior) else ()) \
                + s2.events[ev0:]
            res.append((q, sig))
        return res

    def freeze_key(self, st, v):
        return v if v is None else (self.freeze(st, v) if v[0] != 'obj' else v)

    def base_iter_of(self, t):
        return self.base_iter(t[1])

    def assigned_before(self, k, st):
        return k in st.store

    @staticmethod
    def keyname(k):
        return k[1] if k[0][0] == 'frame' and isinstance(k[1], str) else k

    def summarise(self, lv, init, new, it, keys, lvl, h, k):
        def has_lv(t):
            return mentions(t, lambda x: x[0] == 'lv' and x[1] == lvl)
        if new == lv:
            return init if init is not None else ('unbound',)
        if k[1] == '#c':
            c0 = init if init is not None else ('content', k[0])
            # appends
            e = self.append_entries(lv, new)
            if e is not None and not any(has_lv(x) for _, x in e[1]):
                m = ('map', e[1], it)
                if e[0] == 'front':
                    return self.cat(('reversed', m), c0)
                return self.cat(c0, m)
        if not has_lv(new):
            return ('last', init if init is not None else ('unbound',), new, it)
        return ('fold', self.keyname(k) if not isinstance(self.keyname(k), tuple) else self.keyname(k), lvl,
                init if init is not None else ('unbound',), new, it)

    def append_entries(self, lv, new):
        alts = new[1] if new[0] == 'choice' else (((), new),)
        side, entries = None, []
        for cond, v in alts:
            if v == lv:
                continue
            if v[0] == 'cat' and v[1] == lv and all(x[0] == 'L' for x in v[2:]):
                sd, items = 'back', [y for x in v[2:] for y in x[1:]]
            elif v[0] == 'cat' and v[-1] == lv and all(x[0] == 'L' for x in v[1:-1]):
                sd, items = 'front', [y for x in v[1:-1] for y in x[1:]]
            else:
                return None
            if side not in (None, sd):
                return None
            side = sd
            if len(items) == 1:
                entries.append((cond, items[0]))
            else:
                entries.append((cond, ('splat', ('L',) + tuple(items))))
        if side is None:
            return None
        if len(alts) > 1 and len(entries) == len(alts) and len({v for _, v in entries}) == 1:
            entries = [((), entries[0][1])]
        return side, tuple(entries)

    # ---- try / with
    def s_Try(self, s, st, fr):
        self.n += 1
        tag = ('exc', self.n)
        outs = self.exec_block(s.body, st.copy(), fr)
        mid = []
        caught = []

        def handles(h, exc):
            if h.type is None:
                return True
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            names = [ast.unparse(t).split('.')[-1] for t in ts]
            return any(exc_sub(exc, n) for n in names)
        for s2, sig in outs:
            if isinstance(sig, Raise):
                for h in s.handlers:
                    if sig.exc == 're-raise' or handles(h, sig.exc):
                        caught.append((s2, h, sig))
                        break
                else:
                    mid.append((s2, sig))
            elif sig is None:
                mid.extend(self.exec_block(s.orelse, s2, fr) if s.orelse else [(s2, None)])
            else:
                mid.append((s2, sig))
        if s.handlers and self.implicit_try:
            already = {id(h) for _, h, _ in caught}
            for h in s.handlers:
                if id(h) in already:
                    continue
                s2 = st.copy()
                s2.facts[tag] = True
                caught.append((s2, h, Raise('implicit', s.lineno, True)))
        for s2, h, sig in caught:
            s3 = s2.copy()
            if h.name:
                s3.store[(fr['id'], h.name)] = ('excval', sig.exc)
            for s4, sg in self.exec_block(h.body, s3, fr):
                if isinstance(sg, Raise) and sg.exc == 're-raise':
                    sg = Raise(sig.exc, sg.line, sig.implicit)
                mid.append((s4, sg))
        if not s.finalbody:
            return mid
        res = []
        for s2, sig in mid:
            for s3, sg in self.exec_block(s.finalbody, s2, fr):
                res.append((s3, sig if sg is None else sg))
        return res

    def s_With(self, s, st, fr):
        outs = [(st, None)]
        items = s.items

        def go(i, stt):
            if i == len(items):
                return self.exec_block(s.body, stt, fr)
            res = []
            for s2, v in self.eval(items[i].context_expr, stt, fr):
                if isinstance(v, Raise):
                    res.append((s2, v))
                    continue
                s3 = s2.copy()
                s3.ev('enter', v, s.lineno)
                if items[i].optional_vars is not None:
                    for s4, r in self.assign(items[i].optional_vars, v, s3, fr):
                        if isinstance(r, Raise):
                            res.append((s4, r))
                        else:
                            for s5, sig in go(i + 1, s4):
                                s5 = s5.copy()
                                s5.ev('exit', v, s.lineno)
                                res.append((s5, sig))
                else:
                    for s5, sig in go(i + 1, s3):
                        s5 = s5.copy()
                        s5.ev('exit', v, s.lineno)
                        res.append((s5, sig))
            return res
        return go(0, st)

    # ------------------------------------------------------------------ entry points
    def run(self, f, args=(), kwargs=(), st=None):
        """analyse a package function value on abstract arguments -> [(state, value|Raise)]"""
        self.stack, self.loops = [], []
        st = st.copy() if st is not None else State()
        if isinstance(f, Func):
            f = self.func_val(f)
        return self.call(f, tuple(args), tuple(kwargs), st)

    def run_raw(self, f, args=(), kwargs=(), st=None):
        """as run(), but ignoring decorators"""
        self.stack, self.loops = [], []
        st = st.copy() if st is not None else State()
        return self.call_func(f, None, tuple(args), tuple(kwargs), st)

"""Client programs: short programs over the public classes, read by the abstract interpreter as entry points into the package.

Parameter values are abstract points ('gen', name, type): numbers or dimensions in general position (positive, different unless
the same point).  Matrices are abstracted to the set of points they derive from ('dep', point, ...): every function of the
numerical toolbox is summarised as a dependency on all of its arguments, so no matrix is ever computed.
"""
import ast
import builtins
from .interp import Interp, State, Raise, C, NONE, TRUE, FALSE, is_c, subterms, Unsupported, show
from .loader import Func, Class, Module

CLIENT = 'quanguru.client__'
NUM = {'int': {'int', 'integer', 'Number', 'Real', 'Integral'}, 'float': {'float', 'Number', 'Real'}}


def gen(name, typ='float'):
    return ('gen', name, typ)


def points(t):
    """the abstract points (and operators) a value derives from"""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or not x or id(x) in seen:
            continue
        seen.add(id(x))
        if x[0] == 'gen':
            out.add(x[1])
            continue
        if x[0] == 'dep':
            out.update(x[1:])
            continue
        if x[0] == 'fn':
            out.add(x[1].split('.')[-1])
        if x[0] in ('bin', 'call'):
            r = ratio(x)
            if r is not None:       # factors that cancel do not count
                out.update(r[1])
                continue
        todo.extend(x)
    return out


def generic(t):
    """a number built from abstract points"""
    if is_c(t):
        return t[1] in ('int', 'float', 'complex')
    if t[0] == 'gen':
        return t[2] in ('int', 'float')
    if t[0] == 'bin':
        return generic(t[2]) and generic(t[3])
    if t[0] in ('neg', 'usub'):
        return generic(t[1])
    if t[0] == 'un' and t[1] in ('-', '+'):
        return generic(t[2])
    if t[0] == 'call' and t[1] == ('ext', 'builtins.int') and len(t[2]) == 1:
        return generic(t[2][0])
    return False


def ratio(t):
    """(coefficient, {atom: exponent}) of a product/quotient of points, or None"""
    if is_c(t) and t[1] in ('int', 'float') and t[2] != 0:
        return (t[2], {})
    if t[0] == 'gen':
        return (1, {t[1]: 1})
    if t[0] == 'call' and t[1] == ('ext', 'builtins.int'):
        return ratio(t[2][0])
    if t[0] == 'bin' and t[1] in ('*', '/', '//'):
        a, b = ratio(t[2]), ratio(t[3])
        if a is None or b is None:
            return None
        s = 1 if t[1] == '*' else -1
        d = dict(a[1])
        for k, e in b[1].items():
            d[k] = d.get(k, 0) + s * e
            if d[k] == 0:
                del d[k]
        return (a[0] * b[0] if s == 1 else a[0] / b[0], d)
    return None


def large(t):
    """built from points by positive sums and products"""
    r = ratio(t)
    if r is not None:
        return bool(r[1]) and r[0] > 0
    if t[0] == 'call' and t[1] == ('ext', 'builtins.int'):
        return large(t[2][0])
    if t[0] == 'bin' and t[1] in ('+', '*'):
        pos = lambda x: large(x) or is_c(x) and x[2] > 0
        return pos(t[2]) and pos(t[3])
    return False


class ClientInterp(Interp):
    def load_global(self, name, module, st):
        """names of a client program that nothing defines are abstract points: d.. and n.. integers, others real numbers"""
        if module.name == CLIENT and not hasattr(builtins, name) and self.p.resolve_global(module, name) is None:
            return gen(name, 'int' if name[0] in 'dn' and name[1:].isdigit() else 'float')
        return super().load_global(name, module, st)

    def static_kinds(self, st, t):
        if t[0] in ('gen', 'dep', 'ident', 'hc'):
            return frozenset('o')
        if generic(t) and not is_c(t):
            return frozenset('o')
        return super().static_kinds(st, t)

    def differ(self, a, b):
        if super().differ(a, b):
            return True
        if a == b:
            return False
        hard = lambda x: x[0] in ('c', 'gen', 'fn', 'cls', 'ext')
        return self.plain(a) and (self.plain(b) or hard(b)) or self.plain(b) and hard(a)

    def plain(self, v):
        """an instance without its own equality"""
        if v[0] == 'obj' and self.kind_of(v) == 'inst':
            c = self.typeof(v)
            return c is not None and self.p.lookup(c, '__eq__') is None
        return False

    def truth_cmp(self, op, a, b, st):
        if op in ('==', 'is'):
            if self.plain(a) or self.plain(b):
                o = b if self.plain(a) else a
                if self.plain(a) and self.plain(b) or is_c(o) or o[0] in ('gen', 'dep', 'fn', 'cls', 'tup', 'L', 'bin'):
                    return [(st, a == b)]
                if self.kind_of(o) in ('list', 'dict', 'set', 'inst'):
                    return [(st, a == b)]
            for x, y in ((a, b), (b, a)):
                if x[0] in ('dep', 'gen') and (y[0] in ('fn', 'clo', 'cls', 'tup') or self.kind_of(y) in ('list', 'dict', 'set')):
                    return [(st, False)]
                if is_c(y) and (self.kind_of(x) in ('list', 'dict', 'set') or x[0] in ('tup', 'L', 'D')):
                    return [(st, False)]
                if x[0] == 'gen' and is_c(y):
                    return [(st, False)]
            if generic(a) and generic(b) and not (is_c(a) and is_c(b)):
                ra, rb = ratio(a), ratio(b)
                if a == b:
                    return [(st, True)]
                if ra is not None and rb is not None:
                    return [(st, ra == rb and (op == '==' or a[0] == b[0] == 'gen'))]
                return [(st, False)]
            ka, kb = (self.content(st, x) if self.kind_of(x) == 'list' else x for x in (a, b))
            if op == '==' and ka[0] in ('L', 'tup') and kb[0] in ('L', 'tup') and (a[0] == 'obj' or b[0] == 'obj' or ka[0] == 'tup'):
                if ka[0] != kb[0] or len(ka) != len(kb):
                    return [(st, False)]
                outs = [(st, True)]
                for x, y in zip(ka[1:], kb[1:]):
                    nxt = []
                    for s, r in outs:
                        nxt.extend(self.truth_cmp('==', x, y, s) if r else [(s, r)])
                    outs = nxt
                return outs
        if op == '<' and generic(a) and generic(b) and not (is_c(a) and is_c(b)):
            # points are large positive numbers in general position
            if is_c(a) and large(b):
                return [(st, True)]
            if is_c(b) and large(a):
                return [(st, False)]
        return super().truth_cmp(op, a, b, st)

    def decide_isinst(self, x, types, st):
        names = {t[1].split('.')[-1] for t in types if t[0] == 'ext'}
        if x[0] == 'gen':
            return bool(names & NUM.get(x[2], set()))
        if x[0] == 'dep':
            return bool(names & {'spmatrix', 'csc_matrix', 'csr_matrix'})
        if generic(x) and not is_c(x):
            t = 'int' if x[0] == 'call' else 'float'
            return bool(names & NUM[t])
        return super().decide_isinst(x, types, st)


    def x_builtins_callable(self, a, kw, st, line):
        if a[0][0] in ('gen', 'dep') or self.kind_of(a[0]) in ('list', 'dict', 'set') or generic(a[0]):
            return [(st, FALSE)]
        if self.kind_of(a[0]) == 'inst' and self.typeof(a[0]) is not None:
            return [(st, C(self.p.lookup(self.typeof(a[0]), '__call__') is not None))]
        return super().x_builtins_callable(a, kw, st, line)


class Client:
    """runs client programs from one abstract heap"""

    def __init__(self, prog, source, path_limit=3000, step_limit=1500000, hooks=None, interp=None, names=False):
        self.p = prog
        prog.frozen = {}
        self.I = I = (interp or ClientInterp)(prog, path_limit, step_limit)
        self.names = names        # names are computed by the code instead of chosen by the client
        I.inline_classes = set(I.inline_classes) | {k for k, c in prog.classes.items()
                                                    if '.classes.' in k and c.name not in ('aliasDict', 'aliasClass')}
        I.max_depth = 400
        I.unroll = 60
        I.max_rec = 40
        self.made = 0
        self.extra = hooks
        I.implicit_try = False
        I.call_hook, I.ext_hook = self.hook, self.ext
        tree = ast.parse(source)
        self.mod = m = Module(CLIENT, 'client', tree, False)
        m.stars = ['quanguru.classes', 'quanguru.QuantumToolbox', 'quanguru']
        for k, c in prog.classes.items():
            m.globals.setdefault(c.name, ('class', k))
        for k, f in prog.funcs.items():
            if f.cls is None and k.startswith('quanguru.QuantumToolbox.') and k.count('.') == 3:
                m.globals.setdefault(f.name, ('func', k))
        self.funcs = {}
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = Func(CLIENT + '.' + n.name, n, m, None, n.name, [])
        for n, f in self.funcs.items():
            m.globals[n] = ('func', f.key)
            prog.funcs.setdefault(f.key, f)
            prog.funcs[f.key] = f
        self.st = State()

    def run(self, name, *args, st=None, **kw):
        I = self.I
        I.stack, I.loops = [], []
        I.steps = 0
        s = (st or self.st).copy()
        s.events = ()
        return I.call_func(self.funcs[name], None, tuple(args), tuple(kw.items()), s, 0)

    def hook(self, I, func, args, kwargs, st, line):
        if self.extra is not None:
            r = self.extra(I, func, args, kwargs, st, line)
            if r is not None:
                return r
        if not isinstance(func, Func):
            return None
        n, c = func.name, func.cls.name if func.cls is not None else None
        if c == 'named' and not self.names:
            if n == '__init__':
                s = st.copy()
                self.made += 1
                cls = I.typeof(args[0])
                d = dict(kwargs)
                s.store[(args[0], '_named__name')] = C(f'{cls.name}#{self.made}')
                s.store[(args[0], '_internal')] = d.get('_internal', FALSE)
                return [(s, NONE)]
            if n == 'getByNameOrAlias' and len(args) == 2 and args[1][0] == 'obj':
                return [(st, args[1])]
            if n == 'getByNameOrAlias' and len(args) == 2:
                v = I.freeze(st, args[1])
                if is_c(v) or v[0] in ('gen', 'fn', 'cls'):
                    o = self.named(st, v)
                    return [(st, Raise('ValueError', line) if o is None else o)]
            if n == 'alias' and len(args) == 2:
                s = st.copy()
                self.register(s, args[0], I.freeze(st, args[1]))
                return [(s, NONE)]
            if n == 'alias' and len(args) == 1:
                s = st.copy()
                al = tuple(k[1] for k, o in s.store.items() if k[0] == '#alias' and o == args[0])
                return [(s, I.new_list(s, ('L',) + al))]
        if func.key.startswith('quanguru.QuantumToolbox.') and not func.key.endswith('.__init__'):
            ps = set()
            for v in list(args) + [v for _, v in kwargs]:
                ps |= points(I.freeze(st, v))
                if is_c(v) and v[1] in ('int', 'float') and v[2] not in (0, 1):
                    ps.add(f'{v[2]:g}')
            ps.add(n)
            return [(st, ('dep',) + tuple(sorted(ps)))]
        return None

    def register(self, st, obj, ali):
        if ali[0] in ('L', 'tup'):
            for a in ali[1:]:
                self.register(st, obj, a)
        else:
            st.store[('#alias', ali)] = obj

    @staticmethod
    def named(st, name):
        """the object with a name or alias"""
        o = st.store.get(('#alias', name))
        if o is None:
            o = next((k[0] for k, v in st.store.items() if k[1] == '_named__name' and v == name), None)
        return o

    def ext(self, I, q, args, kwargs, st, line):
        if q == 'inspect.getfullargspec' and args and args[0][0] in ('fn', 'clo'):
            f = self.p.funcs.get(args[0][1]) if args[0][0] == 'fn' else I.clos[args[0][1]].func
            if f is not None:
                a = f.node.args
                o = I.fresh('inst', None)
                s = st.copy()
                s.store[(o, 'args')] = I.new_list(s, ('L',) + tuple(C(x.arg) for x in a.posonlyargs + a.args))
                return [(s, o)]
        if q == 'warnings.warn':
            return [(st, NONE)]
        return None

"""C19: no default value is changed by a call, and no omitted argument falls back to something an earlier call left behind."""
import ast
from .common import *

RULE = ('flow-sensitive may-alias dataflow of every default value: a mutable default must not reach a mutation, be kept in a field '
        'that is mutated, or be handed to a function that mutates it; a None default must not fall back to a shared mutable object '
        'that is mutated or to a variable that calls rebind')

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'remove', 'discard', 'clear', 'sort',
            'reverse', '__setitem__', '__delitem__', '__iadd__', '__ior__', 'appendleft', 'extendleft', 'popleft', 'rotate', 'fill',
            'resize', 'itemset', 'put', 'setflags', 'partition', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'move_to_end', 'subtract', 'setdiag', 'eliminate_zeros', 'sum_duplicates', 'sort_indices'}
EXT_MUT = {'numpy.fill_diagonal': 0, 'numpy.put': 0, 'numpy.copyto': 0, 'numpy.place': 0, 'numpy.putmask': 0,
           'numpy.random.shuffle': 0, 'random.shuffle': 0, 'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0,
           'operator.setitem': 0, 'operator.delitem': 0, 'operator.iadd': 0, 'bisect.insort': 0}
ARRAYS = {'array', 'zeros', 'ones', 'eye', 'identity', 'arange', 'linspace', 'empty', 'full', 'asarray', 'diag', 'lil_matrix', 'matrix'}
CONT = {'list', 'dict', 'set', 'bytearray', 'deque', 'defaultdict', 'OrderedDict', 'Counter'}
ITERS = {'iter', 'count', 'cycle', 'repeat', 'zip', 'map', 'filter', 'enumerate', 'reversed', 'chain', 'product'}
CONSUME = {'next', 'list', 'tuple', 'set', 'sum', 'dict', 'sorted', 'max', 'min', 'any', 'all'}
PURE_BUILTIN_COPY = {'list', 'dict', 'set', 'tuple', 'sorted', 'copy', 'deepcopy', 'frozenset', 'str', 'len'}
DEEP_READ = {'get', 'values', 'items', 'setdefault', 'pop'}


class Out:
    """effects on the tracked object: mutations [(func, line, text)], returned?, fields it is stored in {field: (func, line)}"""
    __slots__ = ('muts', 'ret', 'stores')

    def __init__(self):
        self.muts, self.ret, self.stores = {}, False, {}

    def size(self):
        return len(self.muts), self.ret, len(self.stores)


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.changed = False
        self.by_name = {}
        self.decorated = {}
        self.subs = {}
        seen = set()
        for f in prog.funcs.values():
            if f.cls is not None:
                self.by_name.setdefault(f.name, []).append(f)
            for d in f.decos if not f.is_lambda else []:
                t = d.func if isinstance(d, ast.Call) else d
                nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
                self.decorated.setdefault(nm, []).append(f)
        for c in prog.classes.values():
            for b in prog.mro(c):
                if isinstance(b, Class):
                    self.subs.setdefault(b.key, []).append(c)
        self.field_mut = self._field_mutations()

    # ---- fields mutated anywhere in the package
    def _field_mutations(self):
        out = {}
        for f in self.prog.funcs.values():
            local = {}     # local name -> field it was read from
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            local[t.id] = self.fieldname(f, n.value)

            def base(x):
                if isinstance(x, ast.Attribute):
                    return self.fieldname(f, x)
                if isinstance(x, ast.Name):
                    return local.get(x.id)
                return None
            for n in ast.walk(f.node):
                fld = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    fld = base(n.func.value)
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Subscript):
                            fld = base(t.value)
                        elif isinstance(n, ast.AugAssign) and isinstance(t, ast.Attribute):
                            fld = base(t)
                if fld:
                    out.setdefault(fld, (f, n.lineno))
        return out

    def fieldname(self, f, a):
        return f.cls.mangle(a.attr) if f.cls is not None else a.attr

    # ---- summaries
    def effects(self, f, param, kind, node=None):
        key = (f.key, id(node) if node is not None else 0, param, kind)
        if key not in self.memo:
            self.memo[key] = Out()
            self.run(f, param, kind, self.memo[key], node)
            self.changed = True
        return self.memo[key]

    def solve(self, f, param, kind, node=None):
        self.memo.clear()
        for _ in range(12):
            self.changed = False
            out = self.effects(f, param, kind, node)
            before = [o.size() for o in self.memo.values()]
            for (fk, nid, p, k), o in list(self.memo.items()):
                if nid == 0:
                    self.run(self.prog.funcs[fk], p, k, o, None)
                elif node is not None and nid == id(node):
                    self.run(f, p, k, o, node)
            if [o.size() for o in self.memo.values()] == before:
                break
        return out

    def run(self, f, param, kind, out, node=None):
        Flow(self, f, param, kind, out, node or f.node).go()


class Flow:
    """may-alias dataflow of one object inside one function; the state maps local names to True when they may hold it"""

    def __init__(self, A, f, param, kind, out, node, shared=None):
        self.A, self.f, self.param, self.kind, self.out, self.node = A, f, param, kind, out, node
        self.shared = shared        # predicate: expression reads the shared object (fallback analysis)
        self.breaks = []

    def go(self):
        st = {self.param} if self.shared is None else set()
        body = self.node.body if isinstance(self.node.body, list) else None
        if body is None:
            if self.ev(self.node.body, st):
                self.out.ret = True
            return
        self.block(body, frozenset(st))

    def mut(self, line, text):
        self.out.muts.setdefault((self.f.key, text), (self.f, line))

    # ---- expressions: may the value be the tracked object?
    def ev(self, e, st):
        if e is None:
            return False
        if self.shared is not None and self.shared(e, st):
            return True
        if isinstance(e, ast.Name):
            return e.id in st
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st)
            if isinstance(st, set):
                (st.add if v else st.discard)(e.target.id)
            return v
        if isinstance(e, ast.IfExp):
            a, b = self.refine(e.test, st)
            self.ev(e.test, st)
            return bool((a is not None and self.ev(e.body, set(a))) | (b is not None and self.ev(e.orelse, set(b))))
        if isinstance(e, ast.BoolOp):
            r, cur = False, set(st)
            for i, x in enumerate(e.values):
                if cur is None:
                    break
                v = self.ev(x, cur)
                last = i == len(e.values) - 1
                a, b = self.refine(x, cur)
                if v and not last:
                    # the operand is the result when it decides the expression
                    stays = b if isinstance(e.op, ast.And) else a
                    v = stays is not None and self.ev(x, set(stays))
                r |= v
                cur = (set(a) if a is not None else None) if isinstance(e.op, ast.And) else (set(b) if b is not None else None)
            return r
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, st)
            self.ev(e.slice, st)
            return v and self.kind.startswith('deep')
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, st)
            return v and self.kind == 'object'
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set(st)
            for g in e.generators:
                self.iterate(g.iter, inner, g.target)
                for c in g.ifs:
                    self.ev(c, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.ev(x, inner)
            return False
        if isinstance(e, ast.Lambda):
            names = {a.arg for a in e.args.args + e.args.kwonlyargs}
            self.ev(e.body, set(st) - names)
            return False
        if isinstance(e, ast.Starred):
            self.ev(e.value, st)
            return False
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            # an object inside a fresh container: not followed, except for immediate unpacking
            for x in e.elts:
                self.ev(x, st)
            return False
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return False

    def iterate(self, it, st, target):
        v = self.ev(it, st)
        if v and self.kind == 'iter':
            self.mut(it.lineno, 'iterates over ' + ast.unparse(it))
        deep = self.kind.startswith('deep') and (v or (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute)
                                                       and it.func.attr in DEEP_READ and self.ev(it.func.value, st)))
        self.bind(target, deep, st)

    def bind(self, t, v, st):
        if isinstance(t, ast.Name):
            (st.add if v else st.discard)(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, v, st)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st)
        elif isinstance(t, ast.Subscript):
            if self.ev(t.value, st):
                self.mut(t.lineno, 'assigns ' + ast.unparse(t))
            self.ev(t.slice, st)
        elif isinstance(t, ast.Attribute):
            if self.ev(t.value, st):
                self.mut(t.lineno, 'assigns ' + ast.unparse(t))
            if v:
                self.out.stores.setdefault(self.A.fieldname(self.f, t), (self.f, t.lineno))

    # ---- calls
    def call(self, e, st):
        fn = e.func
        args = [(i, None, a) for i, a in enumerate(e.args)] + [(None, k.arg, k.value) for k in e.keywords]
        vals = []
        star = False
        for i, k, a in args:
            if isinstance(a, ast.Starred):
                self.ev(a.value, st)
                star = True
                continue
            v = self.ev(a, st)
            if v and not star:
                vals.append((i, k, a))
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, st)
            if recv:
                if fn.attr in MUTATORS and self.kind != 'object':
                    self.mut(e.lineno, ast.unparse(fn) + '(...)')
                if fn.attr in ('__next__', 'send') and self.kind == 'iter':
                    self.mut(e.lineno, ast.unparse(fn) + '(...)')
                if self.kind.startswith('deep') and fn.attr in DEEP_READ:
                    return True
                if self.kind == 'object':
                    for g in self.A.by_name.get(fn.attr, []):
                        self.into(g, params_of(g)[0] if params_of(g) else None, e.lineno)
        if not vals:
            return False
        r = False
        q = self.ext_name(fn)
        if q in EXT_MUT:
            for i, k, a in vals:
                if i == EXT_MUT[q]:
                    self.mut(e.lineno, ast.unparse(fn) + '(...)')
            return False
        if isinstance(fn, ast.Name) and fn.id in CONSUME and self.kind == 'iter' and self.target(fn, st) is None:
            self.mut(e.lineno, ast.unparse(fn) + '(...)')
            return False
        if isinstance(fn, ast.Name) and fn.id in ('setattr', 'delattr') and vals[0][0] == 0:
            self.mut(e.lineno, ast.unparse(fn) + '(...)')
            return False
        if isinstance(fn, ast.Name) and fn.id == 'setattr' and vals[0][0] == 2 and isinstance(e.args[1], ast.Constant):
            self.out.stores.setdefault(e.args[1].value, (self.f, e.lineno))
            return False
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in CONT and fn.attr in MUTATORS \
                and vals[0][0] == 0:
            self.mut(e.lineno, ast.unparse(fn) + '(...)')
            return False
        for g, off, node in self.targets(fn, st):
            ps = [a.arg for a in node.args.posonlyargs + node.args.args]
            for i, k, a in vals:
                p = k if i is None else (ps[i + off] if i + off < len(ps) else None)
                if p is not None and (p in ps or p in [x.arg for x in node.args.kwonlyargs]):
                    r |= self.into(g, p, e.lineno, node)
        return r

    def into(self, g, p, line, node=None):
        if p is None:
            return False
        o = self.A.effects(g, p, self.kind, node if node is not None and node is not g.node else None)
        for k, v in o.muts.items():
            self.out.muts.setdefault(k, v)
        for k, v in o.stores.items():
            self.out.stores.setdefault(k, v)
        return o.ret

    def ext_name(self, fn):
        parts = []
        x = fn
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        r = self.A.prog.resolve_global(self.f.module, x.id)
        if r and r[0] == 'ext':
            return '.'.join([r[1]] + parts[::-1])
        return None

    def target(self, fn, st):
        t = self.targets(fn, st)
        return t[0] if t else None

    def targets(self, fn, st):
        """[(function, offset of the first argument, node)]"""
        A = self.A
        if isinstance(fn, ast.Name):
            # local definitions
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.FunctionDef) and n.name == fn.id and n is not self.f.node:
                    g = next((x for x in A.prog.funcs.values() if x.node is n), None)
                    return [(g or self.f, 0, n)]
            if not self.f.is_lambda and self.f.node.name == fn.id and self.f.cls is None:
                return [(self.f, 0, self.f.node)]
            r = A.prog.resolve_global(self.f.module, fn.id)
            if r and r[0] == 'func':
                g = A.prog.funcs[r[1]]
                return [(g, 0, g.node)]
            if r and r[0] == 'class':
                at = A.prog.lookup(A.prog.classes[r[1]], '__init__')
                if at and at[1][0] == 'func':
                    return [(at[1][1], 1, at[1][1].node)]
            # the parameter of an enclosing decorator: every function it decorates
            outer = A.prog.funcs.get(self.f.key.rsplit('.', 1)[0].replace('.<locals>', ''))
            for o in (self.f, outer):
                if o is not None and not o.is_lambda and fn.id in params_of(o) and o.name in A.decorated:
                    return [(g, 0, g.node) for g in A.decorated[o.name]]
            return []
        if isinstance(fn, ast.Attribute):
            x = fn.value
            name = self.f.cls.mangle(fn.attr) if self.f.cls is not None else fn.attr
            if isinstance(x, ast.Name):
                r = A.prog.resolve_global(self.f.module, x.id)
                if r and r[0] == 'class':
                    at = A.prog.lookup(A.prog.classes[r[1]], name)
                    if at and at[1][0] in ('func', 'static', 'classm'):
                        g = at[1][1]
                        return [(g, {'func': 0, 'static': 0, 'classm': 1}[at[1][0]], g.node)]
                if r and r[0] == 'module':
                    r2 = A.prog.resolve_global(A.prog.modules[r[1]], fn.attr)
                    if r2 and r2[0] == 'func':
                        g = A.prog.funcs[r2[1]]
                        return [(g, 0, g.node)]
                    return []
            gs = []
            sup = isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super'
            if self.f.cls is not None and (sup or (isinstance(x, ast.Name) and x.id in ('self', 'cls', 'obj'))):
                # methods of the class, its bases and its subclasses
                for c in A.subs.get(self.f.cls.key, []):
                    at = A.prog.lookup(c, name, self.f.cls) if sup else A.prog.lookup(c, name)
                    if at and at[1][0] in ('func', 'static', 'classm') and all(at[1][1] is not g for g, _ in gs):
                        gs.append((at[1][1], 0 if at[1][0] == 'static' else 1))
            else:
                for g in A.by_name.get(fn.attr, []):
                    gs.append((g, 1))
            return [(g, off, g.node) for g, off in gs]
        return []

    # ---- conditions
    def refine(self, t, st):
        """states of the true and of the false outcome (None: impossible for the tracked object is expressed by dropping it)"""
        st = frozenset(st)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.refine(t.operand, st)
            return b, a
        if isinstance(t, ast.Name) and t.id in st and self.shared is None:
            if self.kind == 'empty':
                return st - {t.id}, st
            if self.kind in ('full', 'deepfull'):
                return st, st - {t.id}
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in st:
            op, c = t.ops[0], t.comparators[0]
            none = isinstance(c, ast.Constant) and c.value is None
            if none and isinstance(op, (ast.Is, ast.Eq)):
                return st - {t.left.id}, st
            if none and isinstance(op, (ast.IsNot, ast.NotEq)):
                return st, st - {t.left.id}
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'len' and len(t.args) == 1:
            return self.refine(t.args[0], st)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) \
                and t.left.func.id == 'len' and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
            a, b = self.refine(t.left, st)
            if isinstance(t.ops[0], ast.Eq):
                return b, a
            if isinstance(t.ops[0], (ast.Gt, ast.NotEq)):
                return a, b
        if isinstance(t, ast.BoolOp):
            cur, others = st, []
            for x in t.values:
                a, b = self.refine(x, cur)
                if isinstance(t.op, ast.And):
                    others.append(b)
                    cur = a
                else:
                    others.append(a)
                    cur = b
            joined = frozenset().union(*others)
            return (cur, joined) if isinstance(t.op, ast.And) else (joined, cur)
        return st, st

    # ---- statements; a state is a frozenset of names or None (unreachable)
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(*ss):
        ss = [s for s in ss if s is not None]
        return frozenset().union(*ss) if ss else None

    def stmt(self, s, st):
        w = set(st)
        if isinstance(s, ast.Assign):
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and \
                    isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(s.targets[0].elts):
                vs = [self.ev(x, w) for x in s.value.elts]
                for t, v in zip(s.targets[0].elts, vs):
                    self.bind(t, v, w)
            else:
                v = self.ev(s.value, w)
                for t in s.targets:
                    self.bind(t, v, w)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, w), w)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value, w)
            if self.ev(s.target if not isinstance(s.target, ast.Subscript) else s.target.value, w) and self.kind != 'iter':
                self.mut(s.lineno, ast.unparse(s))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    w.discard(t.id)
                elif isinstance(t, (ast.Subscript, ast.Attribute)) and self.ev(t.value, w):
                    self.mut(s.lineno, ast.unparse(s))
        elif isinstance(s, ast.Return):
            if s.value is not None and self.ev(s.value, w):
                self.out.ret = True
            return None
        elif isinstance(s, ast.Raise):
            self.ev(s.exc, w)
            return None
        elif isinstance(s, ast.Expr):
            self.ev(s.value, w)
        elif isinstance(s, ast.If):
            self.ev(s.test, w)
            a, b = self.refine(s.test, w)
            return self.join(self.block(s.body, a), self.block(s.orelse, b))
        elif isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            brk, self.breaks = self.breaks, []
            cur = frozenset(w)
            for _ in range(6):
                b = set(cur)
                if isinstance(s, ast.While):
                    self.ev(s.test, b)
                    b = set(self.refine(s.test, b)[0])
                else:
                    self.iterate(s.iter, b, s.target)
                self.conts = []
                e = self.block(s.body, frozenset(b))
                new = self.join(cur, e, *self.conts)
                if new == cur:
                    break
                cur = new
            out = self.join(cur, *self.breaks)
            self.breaks = brk
            return self.join(self.block(s.orelse, cur), out) if s.orelse else out
        elif isinstance(s, ast.Break):
            self.breaks.append(st)
            return None
        elif isinstance(s, ast.Continue):
            getattr(self, 'conts', []).append(st)
            return None
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, w)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, w)
            return self.block(s.body, frozenset(w))
        elif isinstance(s, ast.Try):
            a = self.block(s.body, st)
            hs = [self.block(h.body, self.join(st, a)) for h in s.handlers]
            if a is not None:
                a = self.block(s.orelse, a)
            j = self.join(a, *hs)
            if s.finalbody:
                f = self.block(s.finalbody, self.join(j, st))
                return None if j is None else f
            return j
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # the closure may run any time later
            names = {a.arg for a in s.args.args + s.args.kwonlyargs + s.args.posonlyargs}
            local = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            nonl = {x for n in ast.walk(s) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
            self.block(s.body, frozenset(w - names - (local - nonl)))
            w.discard(s.name)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, w)
        elif isinstance(s, ast.Match):
            self.ev(s.subject, w)
            return self.join(st, *[self.block(c.body, frozenset(w)) for c in s.cases])
        return frozenset(w)


def default_kind(prog, f, d, depth=0):
    """None for an immutable default, else the kind of mutable object"""
    if isinstance(d, (ast.List, ast.Set)):
        if not d.elts:
            return 'empty'
        return 'deepfull' if any(default_kind(prog, f, x) for x in d.elts) else 'full'
    if isinstance(d, ast.Dict):
        if not d.keys:
            return 'empty'
        return 'deepfull' if any(default_kind(prog, f, x) for x in d.values) else 'full'
    if isinstance(d, ast.Tuple):
        return 'deepfull' if any(default_kind(prog, f, x) for x in d.elts) else None
    if isinstance(d, (ast.ListComp, ast.SetComp, ast.DictComp)):
        return 'other'
    if isinstance(d, ast.GeneratorExp):
        return 'iter'
    if isinstance(d, ast.Call):
        nm = d.func.id if isinstance(d.func, ast.Name) else d.func.attr if isinstance(d.func, ast.Attribute) else None
        r = prog.resolve_global(f.module, d.func.id) if isinstance(d.func, ast.Name) else None
        if r and r[0] == 'class':
            c = prog.classes[r[1]]
            if any(isinstance(b, str) and b.split('.')[-1] in CONT for b in prog.mro(c)):
                return 'empty' if not d.args and not d.keywords else 'other'
            return 'object'
        if r and r[0] in ('func', 'assign'):
            return None
        if nm in CONT:
            return 'empty' if not d.args and not d.keywords else 'other'
        if nm in ITERS:
            return 'iter'
        if nm in ARRAYS and isinstance(d.func, ast.Attribute):
            return 'other'
        return None
    if isinstance(d, (ast.Name, ast.Attribute)) and depth < 3:
        if isinstance(d, ast.Name):
            if f.cls is not None and f.cls.mangle(d.id) in f.cls.attrs:
                kind, v = f.cls.attrs[f.cls.mangle(d.id)]
                return default_kind(prog, f, v, depth + 1) if kind == 'var' and not isinstance(v, ast.Name) else None
            r = prog.resolve_global(f.module, d.id)
            if r and r[0] == 'assign':
                k = default_kind(prog, f, r[1], depth + 1)
                return 'other' if k in ('empty', 'full') else k
        return None
    return None


def persistent(prog, f):
    """predicate builder: does an expression read an object that lives longer than the call, of mutable kind?"""
    locals_ = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    locals_ |= {a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg)}
    glob = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}

    def name_of(e):
        """('mutable'|'rebound', label) or None"""
        if isinstance(e, ast.Name) and (e.id not in locals_ or e.id in glob):
            r = prog.resolve_global(f.module, e.id)
            if r and r[0] == 'assign':
                if (r[2].name, e.id) in rebound(prog):
                    return 'rebound', e.id
                if default_kind(prog, f, r[1]):
                    return 'mutable', e.id
        if isinstance(e, ast.Attribute):
            x = e.value
            cls = None
            if isinstance(x, ast.Name) and x.id not in locals_:
                r = prog.resolve_global(f.module, x.id)
                if r and r[0] == 'class':
                    cls = prog.classes[r[1]]
                if r and r[0] == 'func':
                    if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == e.attr and
                           isinstance(n.value, ast.Name) and n.value.id == x.id for g in prog.funcs.values() if g.module is f.module
                           for n in ast.walk(g.node)):
                        return 'rebound', ast.unparse(e)
            elif isinstance(x, ast.Name) and x.id in ('self', 'cls') and f.cls is not None:
                cls = f.cls
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'type' and f.cls is not None:
                cls = f.cls
            if cls is not None:
                at = prog.lookup(cls, cls.mangle(e.attr))
                if at and at[1][0] == 'var' and default_kind(prog, f, at[1][1]) and \
                        not instance_field(prog, cls, cls.mangle(e.attr)):
                    return 'mutable', ast.unparse(e)
        return None
    return name_of


_REB = {}


def rebound(prog):
    """(module, name) of module variables that some function rebinds"""
    if prog.digest not in _REB:
        out = set()
        for f in prog.funcs.values():
            names = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names:
                    out.add((f.module.name, n.id))
        _REB[prog.digest] = out
    return _REB[prog.digest]


def instance_field(prog, cls, name):
    """is the attribute also assigned on instances (then the class value is only a fallback)?"""
    for f in prog.funcs.values():
        if f.cls is None or not (prog.is_sub(f.cls, cls) or prog.is_sub(cls, f.cls)):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and f.cls.mangle(n.attr) == name and \
                    isinstance(n.value, ast.Name) and n.value.id == 'self':
                return True
    return False


def fallback_sites(prog, f, node, p):
    """expressions a parameter with default None is replaced by when it is omitted: [(expr, line)]"""
    out = []

    def about(t):
        return any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(t))
    for n in ast.walk(node):
        if isinstance(n, ast.IfExp) and about(n.test):
            out += [n.body, n.orelse]
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and isinstance(n.values[0], ast.Name) and n.values[0].id == p:
            out += n.values[1:]
        elif isinstance(n, ast.If) and about(n.test):
            for b in n.body + n.orelse:
                for a in ast.walk(b):
                    if isinstance(a, ast.Assign):
                        out.append(a.value)
    return out


def describe(o, A):
    bits = [f'{short(f.key)}:{line} {text}' for (k, text), (f, line) in sorted(o.muts.items(), key=lambda x: x[1][1])]
    for fld, (f, line) in o.stores.items():
        if fld in A.field_mut:
            g, l2 = A.field_mut[fld]
            bits.append(f'{short(f.key)}:{line} keeps it in {fld}, which {short(g.key)}:{l2} changes')
    return bits


def check(prog, tier='quick'):
    rep = Report('C19', prog, tier, RULE,
                 'May-alias dataflow over the syntax tree of every function with default values, with interprocedural summaries '
                 '(mutated, returned, stored) of every function the value is handed to.')
    A = Analysis(prog)
    nodes = []
    for f in sorted(prog.funcs.values(), key=lambda x: x.key):
        nodes.append((f, f.node))
    seen = {id(n) for _, n in nodes}
    for f, n in list(nodes):
        for m in ast.walk(n):
            if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and id(m) not in seen:
                seen.add(id(m))
                nodes.append((f, m))
    for f, node in nodes:
        a = node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        nm = short(f.key) if node is f.node else f'{short(f.key)}.{getattr(node, "name", "lambda")}'
        for arg, d in pairs:
            p = arg.arg
            key = f'{nm}({p}={ast.unparse(d)[:40]})'
            with rep.guard(key):
                kind = default_kind(prog, f, d)
                rep.count('defaults')
                if kind is None:
                    if isinstance(d, ast.Constant) and d.value is None:
                        if fallback(prog, rep, A, f, node, p, nm):
                            continue
                    rep.ok(key, 'immutable')
                    continue
                rep.count('mutable_defaults')
                o = A.solve(f, p, kind, node if node is not f.node else None)
                bits = describe(o, A)
                if o.ret and not bits:
                    bits = returned(prog, A, f, node, p, kind)
                if bits:
                    rep.bad(key, where(f, node.lineno), f'the default of {p} is one object for all calls, and a call that omits '
                            f'it changes it: ' + '; '.join(bits[:4]))
                else:
                    rep.ok(key, f'mutable ({kind}) but never changed: {len(A.memo)} function summaries')
    return rep.finish(minimum=200)


def returned(prog, A, f, node, p, kind):
    """the default is returned: what callers that omit the argument do with the result"""
    bits = []
    names = [a.arg for a in node.args.posonlyargs + node.args.args]
    for g in sorted(prog.funcs.values(), key=lambda x: x.key):
        for c in ast.walk(g.node):
            if not isinstance(c, ast.Call):
                continue
            nm = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
            if nm != getattr(node, 'name', None) or any(k.arg in (p, None) for k in c.keywords) or \
                    any(isinstance(a, ast.Starred) for a in c.args):
                continue
            probe = Flow(A, g, None, kind, Out(), g.node)
            for h, off, n2 in probe.targets(c.func, set()):
                if n2 is node and not (p in names and names.index(p) - off < len(c.args)):
                    out = Out()
                    A.memo.clear()
                    for _ in range(4):
                        Flow(A, g, None, kind, out, g.node, shared=lambda e, st: e is c).go()
                    bits += [f'returned to {short(g.key)}:{c.lineno}: {b}' for b in describe(out, A)]
    return bits


def fallback(prog, rep, A, f, node, p, nm):
    name_of = persistent(prog, f)
    bad = False
    for x in fallback_sites(prog, f, node, p):
        for leaf in ([x] if not isinstance(x, (ast.IfExp, ast.BoolOp)) else
                     [x.body, x.orelse] if isinstance(x, ast.IfExp) else x.values):
            if isinstance(leaf, ast.Call) and isinstance(leaf.func, ast.Attribute) and leaf.func.attr in ('pop', 'popleft') and \
                    name_of(leaf.func.value):
                rep.bad(f'{nm}({p}) falls back to {ast.unparse(leaf)}', where(f, leaf.lineno),
                        f'each call without {p} takes another element of the shared {ast.unparse(leaf.func.value)}')
                bad = True
                continue
            n = name_of(leaf)
            if n is None:
                continue
            rep.count('shared_fallbacks')
            key = f'{nm}({p}) falls back to {n[1]}'
            if n[0] == 'rebound':
                rep.bad(key, where(f, leaf.lineno), f'a call without {p} uses {n[1]}, which calls rebind')
                bad = True
                continue
            src = ast.dump(leaf)
            A.memo.clear()
            out = Out()
            for _ in range(4):
                Flow(A, f, p, 'other', out, node, shared=lambda e, st: ast.dump(e) == src).go()
            bits = describe(out, A)
            if bits:
                rep.bad(key, where(f, leaf.lineno), f'a call without {p} uses the shared object {n[1]} and changes it: '
                        + '; '.join(bits[:4]))
                bad = True
            else:
                rep.ok(key, 'shared object, never changed')
    return bad

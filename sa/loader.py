"""Source model of the analysed package: modules, imports, classes, method resolution, properties.

Everything is read from the .py files of the working tree with the stdlib `ast` module; nothing is imported or run.
"""
import ast
import hashlib
import os


class AnalysisBroken(Exception):
    """An anchor the analysis needs has vanished, or a file does not parse."""


PKG = 'quanguru'


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.globals = {}     # name -> binding tuple
        self.stars = []       # modules star-imported
        self.post = []        # module level `Class.attr = expr` / `Class.a.b = expr`

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]


class Func:
    """A function definition (top level, method or nested)."""
    __slots__ = ('key', 'node', 'module', 'cls', 'name', 'decos', 'is_lambda')

    def __init__(self, key, node, module, cls, name, decos=()):
        self.key, self.node, self.module, self.cls, self.name = key, node, module, cls, name
        self.decos = list(decos)
        self.is_lambda = isinstance(node, ast.Lambda)

    def __repr__(self):
        return f'<Func {self.key}>'

    @property
    def where(self):
        return f'{self.module.path}:{self.node.lineno}'


class Prop:
    __slots__ = ('get', 'set', 'dele')

    def __init__(self, get=None, set=None, dele=None):
        self.get, self.set, self.dele = get, set, dele


class Class:
    def __init__(self, key, name, module, node):
        self.key, self.name, self.module, self.node = key, name, module, node
        self.bases = []
        self.attrs = {}     # name -> ('func',Func)|('static',Func)|('classm',Func)|('prop',Prop)|('var',expr)
        self.slots = None   # list of declared names (unmangled) or None
        self._mro = None

    def __repr__(self):
        return f'<Class {self.key}>'

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            return '_' + self.name.lstrip('_') + name
        return name


def _is_doc(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str)


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.consulted = set()
        base = os.path.join(root, 'src', PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f'package source directory {base} is missing')
        h = hashlib.sha256()
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            if '__pycache__' in dp:
                continue
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, os.path.join(root, 'src'))
                mod = rel[:-3].replace(os.sep, '.')
                is_pkg = mod.endswith('.__init__')
                if is_pkg:
                    mod = mod[:-len('.__init__')]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                h.update(rel.encode() + b'\0' + src.encode() + b'\0')
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f'{p} does not parse: {e}')
                self.modules[mod] = Module(mod, os.path.relpath(p, root), tree, is_pkg)
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._scan_module(m)
        for c in self.classes.values():
            self._resolve_bases(c)
        for c in list(self.classes.values()):
            self._scan_class(c)
        for m in self.modules.values():
            for cname, attr, expr in m.post:
                b = self.resolve_global(m, cname)
                if b and b[0] == 'class':
                    self.classes[b[1]].attrs[attr] = ('modvar', (expr, m))

    # ---- modules
    def _abs(self, m, level, mod):
        if level == 0:
            return mod or ''
        pkg = m.package().split('.')
        if level > 1:
            pkg = pkg[:-(level - 1)]
        return '.'.join(pkg + ([mod] if mod else []))

    def _scan_module(self, m):
        self._scan_stmts(m, m.tree.body)

    def _scan_stmts(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.globals[a.asname] = ('mod', a.name)
                    else:
                        top = a.name.split('.')[0]
                        m.globals[top] = ('mod', top)
            elif isinstance(st, ast.ImportFrom):
                mod = self._abs(m, st.level, st.module)
                for a in st.names:
                    if a.name == '*':
                        m.stars.append(mod)
                    else:
                        m.globals[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                key = f'{m.name}.{st.name}'
                f = Func(key, st, m, None, st.name, st.decorator_list)
                self.funcs[key] = f
                m.globals[st.name] = ('func', key)
            elif isinstance(st, ast.ClassDef):
                key = f'{m.name}.{st.name}'
                self.classes[key] = Class(key, st.name, m, st)
                m.globals[st.name] = ('class', key)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._scan_target(m, t, st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._scan_target(m, st.target, st.value)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                self._scan_stmts(m, st.body)
                self._scan_stmts(m, getattr(st, 'orelse', []))
                for h in getattr(st, 'handlers', []):
                    self._scan_stmts(m, h.body)

    def _scan_target(self, m, t, value):
        if isinstance(t, ast.Name):
            m.globals[t.id] = ('assign', value)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            m.post.append((t.value.id, t.attr, value))
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) \
                and len(t.elts) == len(value.elts):
            for tt, vv in zip(t.elts, value.elts):
                self._scan_target(m, tt, vv)

    def resolve_global(self, m, name, seen=None):
        """-> ('func',key)|('class',key)|('module',name)|('ext',qualname)|('assign',expr,module)|None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        b = m.globals.get(name)
        if b is None:
            for s in m.stars:
                if s in self.modules:
                    r = self.resolve_global(self.modules[s], name, seen)
                    if r is not None:
                        return r
            if m.is_pkg and f'{m.name}.{name}' in self.modules:
                return ('module', f'{m.name}.{name}')
            return None
        if b[0] in ('func', 'class'):
            return b
        if b[0] == 'assign':
            return ('assign', b[1], m)
        if b[0] == 'mod':
            return ('module', b[1]) if b[1] in self.modules else ('ext', b[1])
        if b[0] == 'from':
            mod, attr = b[1], b[2]
            if mod in self.modules:
                r = self.resolve_global(self.modules[mod], attr, seen)
                if r is not None:
                    return r
                if f'{mod}.{attr}' in self.modules:
                    return ('module', f'{mod}.{attr}')
                return ('ext', f'{mod}.{attr}')
            return ('ext', f'{mod}.{attr}' if mod else attr)

    # ---- classes
    def _resolve_bases(self, c):
        for b in c.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve_global(c.module, b.id)
                if r is None:
                    r = ('ext', 'builtins.' + b.id)
            elif isinstance(b, ast.Attribute):
                r = ('ext', ast.unparse(b))
            if r and r[0] == 'class':
                c.bases.append(self.classes[r[1]])
            elif r and r[0] == 'ext':
                c.bases.append(r[1])

    def mro(self, c):
        if c._mro is None:
            def merge(seqs):
                res = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        h = s[0]
                        if not any(h in t[1:] for t in seqs):
                            break
                    else:
                        raise AnalysisBroken(f'inconsistent MRO for {c.key}')
                    res.append(h)
                    seqs = [[x for x in t if x is not h] for t in seqs]
                    seqs = [t for t in seqs if t]
                return res
            reps = [b for b in c.bases if isinstance(b, Class)]
            exts = [b for b in c.bases if not isinstance(b, Class)]
            c._mro = [c] + merge([self.mro(b) for b in reps] + [reps]) + exts
        return c._mro

    def _scan_class(self, c):
        if getattr(c, '_scanned', False):
            return
        c._scanned = True
        for b in c.bases:
            if isinstance(b, Class):
                self._scan_class(b)
        self._scan_class_body(c, c.node.body)

    def _scan_class_body(self, c, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._scan_method(c, st)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    if isinstance(t, ast.Name):
                        if st.value is None:
                            continue
                        if t.id == '__slots__':
                            c.slots = self._slot_names(c, st.value)
                        c.attrs[c.mangle(t.id)] = self._class_value(c, st.value)
            elif isinstance(st, ast.If):
                self._scan_class_body(c, st.body)
                self._scan_class_body(c, st.orelse)

    def _slot_names(self, c, v):
        if isinstance(v, ast.Name):
            r = self.resolve_global(c.module, v.id)
            if r and r[0] == 'assign':
                return self._slot_names_in(r[1])
            return None
        return self._slot_names_in(v)

    @staticmethod
    def _slot_names_in(v):
        if isinstance(v, (ast.List, ast.Tuple, ast.Set)) and \
                all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in v.elts):
            return [e.value for e in v.elts]
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            return [v.value]
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            a, b = Program._slot_names_in(v.left), Program._slot_names_in(v.right)
            return None if a is None or b is None else a + b
        return None

    def _class_value(self, c, v):
        # alias of an earlier class attribute
        if isinstance(v, ast.Name) and c.mangle(v.id) in c.attrs:
            return c.attrs[c.mangle(v.id)]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
            fs = {}
            for i, a in enumerate(v.args):
                fs[['fget', 'fset', 'fdel'][i]] = a
            for k in v.keywords:
                fs[k.arg] = k.value

            def fn(x):
                if isinstance(x, ast.Name):
                    a = c.attrs.get(c.mangle(x.id))
                    return a[1] if a and a[0] == 'func' else None
                return None
            return ('prop', Prop(fn(fs.get('fget')), fn(fs.get('fset')), fn(fs.get('fdel'))))
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('staticmethod', 'classmethod') \
                and len(v.args) == 1 and isinstance(v.args[0], ast.Name):
            a = c.attrs.get(c.mangle(v.args[0].id))
            if a and a[0] == 'func':
                return ('static' if v.func.id == 'staticmethod' else 'classm', a[1])
        return ('var', v)

    def _find_prop(self, c, expr):
        """expr is the object left of .setter/.getter/.deleter"""
        if isinstance(expr, ast.Name):
            a = c.attrs.get(c.mangle(expr.id))
            return a[1] if a and a[0] == 'prop' else None
        if isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name):
            r = self.resolve_global(c.module, expr.value.id)
            if r and r[0] == 'class':
                b = self.classes[r[1]]
                self._scan_class(b)
                at = self.lookup(b, b.mangle(expr.attr))
                if at and at[1][0] == 'prop':
                    return at[1][1]
        return None

    def _scan_method(self, c, st):
        name = c.mangle(st.name)
        key = f'{c.key}.{st.name}'
        decos = []
        kind, prop = 'func', None
        for i, d in enumerate(st.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                k = {'staticmethod': 'static', 'classmethod': 'classm', 'property': 'prop'}[d.id]
                if k == 'prop':
                    kind, prop = 'prop', ('get', Prop())
                else:
                    kind = k
            elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                base = self._find_prop(c, d.value)
                kind = 'prop'
                prop = ({'setter': 'set', 'getter': 'get', 'deleter': 'dele'}[d.attr], base or Prop())
            else:
                decos.append(d)
        f = Func(key, st, c.module, c, st.name, decos)
        if kind == 'prop':
            which, base = prop
            f.key = key + ('' if which == 'get' else f'.{which}')
            p = Prop(base.get, base.set, base.dele)
            setattr(p, which, f)
            c.attrs[name] = ('prop', p)
        else:
            c.attrs[name] = (kind, f)
        self.funcs[f.key] = f

    def lookup(self, c, name, after=None):
        """-> (owner Class, entry) following the MRO, or None.  `after`: start after that class (super())."""
        memo = self.__dict__.get('frozen')
        if memo is not None:
            q = (c.key, name, after.key if after is not None else None)
            if q in memo:
                return memo[q]
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        r = None
        for k in mro:
            if isinstance(k, Class) and name in k.attrs:
                r = (k, k.attrs[name])
                break
        if memo is not None:
            memo[q] = r
        return r

    def has_slot(self, c, name):
        """mangled slot name declared in c or an ancestor?"""
        for k in self.mro(c):
            if isinstance(k, Class) and k.slots:
                for s in k.slots:
                    if k.mangle(s) == name:
                        return True
        return False

    def all_slots(self, c):
        out = []
        for k in self.mro(c):
            if isinstance(k, Class) and k.slots:
                out += [k.mangle(s) for s in k.slots]
        return out

    def is_sub(self, c, other):
        return other in self.mro(c)

    # ---- anchors
    def cls(self, name, required=True):
        """class by bare name or dotted key"""
        if name in self.classes:
            return self.classes[name]
        hits = [c for c in self.classes.values() if c.name == name]
        if len(hits) == 1:
            return hits[0]
        if required:
            raise AnalysisBroken(f'anchor class {name!r} not found (or ambiguous) in {PKG}')
        return None

    def fn(self, key, required=True):
        if not key.startswith(PKG):
            key = f'{PKG}.{key}'
        if key in self.funcs:
            return self.funcs[key]
        mod, _, name = key.rpartition('.')
        m = self.modules.get(mod)
        if m is not None:
            r = self.resolve_global(m, name)
            if r and r[0] == 'func':
                return self.funcs[r[1]]
        if required:
            raise AnalysisBroken(f'anchor function {key!r} not found')
        return None

    def public_name(self, name):
        """Resolve a name exported by the QuantumToolbox / classes package."""
        for pk in (f'{PKG}.QuantumToolbox', f'{PKG}.classes', PKG):
            m = self.modules.get(pk)
            if m:
                r = self.resolve_global(m, name)
                if r and r[0] in ('func', 'class'):
                    return r
        return None

    def toolbox(self, name, required=True):
        r = self.public_name(name)
        if r and r[0] == 'func':
            return self.funcs[r[1]]
        # not exported: search toolbox modules
        for mn, m in self.modules.items():
            if mn.startswith(f'{PKG}.QuantumToolbox') and m.globals.get(name, (None,))[0] == 'func':
                return self.funcs[m.globals[name][1]]
        if required:
            raise AnalysisBroken(f'anchor toolbox function {name!r} not found')
        return None

    def method(self, cls, name, required=True):
        """entry for attribute `name` on class (after MRO)"""
        r = self.lookup(cls, name)
        if r is None:
            if required:
                raise AnalysisBroken(f'anchor {cls.name}.{name} not found')
            return None
        return r[1]

"""C22: every local variable is assigned before it is read, on every feasible path of every function.

Every function is summarised path by path with unknown arguments (calls of other package functions stay opaque unless they
never return normally); a read of a local for which no assignment reaches is an obligation failure.  A failure that depends on
the value of a parameter is re-examined: for a private function against the constants passed by its call sites, and with the
callees inlined, so that an input that cannot arrive is not reported."""
import ast
from .common import *

RULE = 'definite assignment of locals over feasible paths (abstract interpretation with branch facts)'


def nested_closures(I, outs):
    res = []
    for cid, c in list(I.clos.items()):
        res.append((cid, c))
    return res


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.noreturn = set()
        self.calls = None

    def interp(self, depth):
        I = Interp(self.prog, path_limit=4000, step_limit=300000)
        I.implicit_try = True
        root = []

        def hook(I2, func, args, kwargs, st, line):
            if not isinstance(func, Func):
                # class instantiation stays opaque
                return None
            if not I2.stack:
                return None
            if getattr(func.node, 'lineno', None) and isinstance(func.node, ast.Lambda):
                return None
            if func.key in self.noreturn:
                return [(st.copy(), Raise('Exception', line))]
            if len(I2.stack) <= depth:
                return None
            s = st.copy()
            t = ('call', func.key, tuple(I2.freeze(s, a) for a in args),
                 tuple((k, I2.freeze(s, v)) for k, v in kwargs))
            return [(s, t)]
        I.call_hook = hook
        return I

    def run(self, func, depth, args=None, cls=None):
        I = self.interp(depth)
        a = args if args is not None else sym_args(func, I, cls)
        # *args / **kwargs stay symbolic through bind_params
        fa = func.node.args
        if args is None and a and func.cls is not None and params_of(func)[0] == 'cls':
            a[0] = ('cls', func.cls.key)
        outs = I.run_raw(func, a, tuple((x.arg, ('sym', x.arg)) for x in fa.kwonlyargs))
        found = list(I.unbound_reads)
        # nested functions created while running
        done = set()
        for s, v in outs:
            for cid, c in list(I.clos.items()):
                if cid in done or isinstance(c.func.node, ast.Lambda):
                    continue
                done.add(cid)
                try:
                    n0 = len(I.unbound_reads)
                    I.stack = []
                    I.call(('clo', cid), tuple(('sym', n) for n in params_of(c.func)), (), s)
                    found += I.unbound_reads[n0:]
                except Unsupported as e:
                    self.und.append((c.func.key, e))
        return I, outs, found, len(done)

    def const_sites(self, func):
        """argument tuples (constants or None) of every call site of a private function, None if it escapes"""
        name = func.name
        sites = []
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    a = n.attr
                    if a == name or a.endswith(name) and name.startswith('__') and a.startswith('_'):
                        sites.append(n)
                elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                    sites.append(n)
        calls = {}
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    calls[id(n.func)] = n
        out = []
        for n in sites:
            c = calls.get(id(n))
            if c is None:
                return None
            if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                return None
            out.append((isinstance(n, ast.Attribute), [x.value if isinstance(x, ast.Constant) else Ellipsis for x in c.args],
                        {k.arg: (k.value.value if isinstance(k.value, ast.Constant) else Ellipsis) for k in c.keywords}))
        return out


def check(prog, tier):
    rep = Report('C22', prog, tier, RULE,
                 'Every function of the package was summarised path by path; an obligation is one function (or nested '
                 'function) in which every read of a local is preceded by an assignment on every feasible path.',
                 ['calls return or raise, they do not delete locals of the caller',
                  'a private function is only called by the call sites in the package'])
    cx = Ctx(prog)
    cx.und = []
    funcs = [f for f in prog.funcs.values() if not f.is_lambda]
    # functions that never return normally
    for _ in range(2):
        for f in funcs:
            if f.key in cx.noreturn or not any(isinstance(n, ast.Raise) for n in ast.walk(f.node)) and not cx.noreturn:
                continue
            try:
                I, outs, found, _n = cx.run(f, 0)
            except Unsupported:
                continue
            except RecursionError:
                continue
            if outs and all(isinstance(v, Raise) for _, v in outs):
                cx.noreturn.add(f.key)
    for f in funcs:
        key = short(f.key)
        try:
            I, outs, found, nn = cx.run(f, 0)
        except Unsupported as e:
            rep.undecided(key, e)
            continue
        rep.count('functions_summarised')
        rep.count('nested_functions_summarised', nn)
        rep.count('paths', len(outs))
        if not found:
            rep.ok(key, f'{len(outs)} paths')
            continue
        names = {(fn.key if fn else f.key, n) for fn, n, l, facts in found}
        # re-examine with callees inlined
        for depth in (1, 3):
            try:
                I2, outs2, found2, _ = cx.run(f, depth)
                names &= {(fn.key if fn else f.key, n) for fn, n, l, facts in found2}
                if not names:
                    break
            except Unsupported:
                break
        if names and f.name.startswith('_') and not f.name.endswith('__'):
            sites = cx.const_sites(f)
            if sites:
                ps = params_of(f)
                still = set()
                for isattr, cargs, ckw in sites:
                    I3 = cx.interp(0)
                    base = sym_args(f, I3)
                    off = 1 if (f.cls is not None and isattr and ps and ps[0] in ('self', 'obj', 'cls')) else 0
                    for i, v in enumerate(cargs):
                        if i + off < len(base) and v is not Ellipsis:
                            base[i + off] = C(v)
                    for k, v in ckw.items():
                        if k in ps and v is not Ellipsis:
                            base[ps.index(k)] = C(v)
                    try:
                        I3.run_raw(f, base)
                        still |= {(fn.key if fn else f.key, n) for fn, n, l, facts in I3.unbound_reads}
                    except Unsupported:
                        still = names
                        break
                names &= still
        if not names:
            rep.ok(key, 'after refinement')
            continue
        seen = set()
        for fn, n, line, facts in found:
            fk = fn.key if fn else f.key
            if (fk, n) in names and (fk, n) not in seen:
                seen.add((fk, n))
                cond = ', '.join(f'{show(k)}={v}' for k, v in facts.items() if k[0] not in ('I+', 'I-'))[:300]
                rep.bad(f'unassigned:{short(fk)}:{n}', where(f, line),
                        f'local variable {n} is read without having been assigned, when {cond}')
    for k, e in cx.und:
        rep.undecided('nested:' + short(k), e)
    return rep.finish(minimum=250)

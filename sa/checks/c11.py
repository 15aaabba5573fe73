"""C11: every object gets its own unique name and is registered under it, weakly."""
from .histories import *
from ..client import show, ClientInterp, gen
from ..interp import C, NONE, TRUE, FALSE, is_c, subterms, State

RULE = ('abstract interpretation of object creation with symbolic instance counters: names are a prefix of the class label followed by the advanced '
        'counter of the class; prefixes with different counters must not produce equal names; registry entries are weak references under the name')


class NameInterp(ClientInterp):
    """dictionaries find a key by any alias of the object the key names"""
    aliases = ()

    def resolve(self, st, d, k):
        if k is None or not (self.kind_of(d) == 'dict'):
            return k
        c = self.content(st, d)
        k = self.freeze(st, k)
        if c[0] != 'D' or any(x[0] == k for x in c[1:]):
            return k
        for x in c[1:]:
            if is_c(k) and (x[0], k) in (st.store.get(('#aliases', 0)) or ()):
                return x[0]
        return k

    def differ(self, a, b):
        if super().differ(a, b):
            return True
        return a != b and is_str(a) and is_str(b) and not (is_c(a) and is_c(b))

    def getitem(self, v, i, st, line=0):
        return super().getitem(v, self.resolve(st, v, i), st, line)

    def setitem(self, v, i, val, st, line=0):
        return super().setitem(v, self.resolve(st, v, i), val, st, line)

    def call_bext(self, name, v, args, kwargs, st, line):
        if args and name in ('get', '__getitem__', 'pop', 'setdefault', '__setitem__', '__delitem__', '__contains__'):
            args = (self.resolve(st, v, args[0]),) + tuple(args[1:])
        return super().call_bext(name, v, args, kwargs, st, line)

    def dict_put(self, v, i, val, s):
        c = self.content(s, v)
        if c[0] == 'D' and is_str(i) and all(is_str(k) or is_c(k) or k[0] == 'obj' for k, _ in c[1:]):
            s.ev('mut', v, '__setitem__', (i, val), self.line)
            items = [(k, x) for k, x in c[1:] if k != i]
            at = next((n for n, kv in enumerate(c[1:]) if kv[0] == i), len(items))
            items.insert(at, (i, val))
            s.store[(v, '#c')] = ('D',) + tuple(items)
            return [(s, NONE)]
        return super().dict_put(v, i, val, s)

    def static_kinds(self, st, t):
        if is_ref(t):
            return frozenset('o')
        return super().static_kinds(st, t)

    def truth_cmp(self, op, a, b, st):
        if op == '==' and is_str(a) and is_str(b) and not (is_c(a) and is_c(b)):
            return [(st, a == b)]       # collisions of names are judged separately
        if op == 'in':
            a = self.resolve(st, b, a)
            keys = self.content(st, b) if self.kind_of(b) == 'dict' else NONE
            if is_c(a) and keys[0] == 'D' and all(is_c(k) for k, _ in keys[1:]):
                return [(st, any(k == a for k, _ in keys[1:]))]
        return super().truth_cmp(op, a, b, st)

    def call(self, f, args, kwargs, st, line=0):
        if is_ref(f) and not args:
            return [(st, f[2][0])]
        return super().call(f, args, kwargs, st, line)

    def decide_isinst(self, x, types, st):
        if is_ref(x):
            return any(t[0] == 'ext' and t[1].split('.')[-1] in ('ReferenceType', 'ref', 'ProxyTypes') for t in types)
        if x[0] != 'c' and is_str(x):
            return any(t[0] == 'ext' and t[1].split('.')[-1] == 'str' for t in types)
        return super().decide_isinst(x, types, st)


def is_str(t):
    return is_c(t) and t[1] == 'str' or t[0] == 'bin' and t[1] == '+' and (is_str(t[2]) or is_str(t[3])) \
        or t[0] == 'call' and t[1] == ('ext', 'builtins.str') or t[0] == 'fstr'


def is_ref(x):
    return x[0] == 'call' and x[1] == ('ext', 'weakref.ref')


def is_name(t):
    return is_c(t) and t[1] == 'str' or split(t) is not None


def linear(t):
    """({symbol: coefficient}, constant) of a counter"""
    if is_c(t) and t[1] == 'int':
        return {}, t[2]
    if t[0] == 'bin' and t[1] in ('+', '-'):
        a, b = linear(t[2]), linear(t[3])
        if a is None or b is None:
            return None
        g = 1 if t[1] == '+' else -1
        d = dict(a[0])
        for k, v in b[0].items():
            d[k] = d.get(k, 0) + g * v
        return {k: v for k, v in d.items() if v}, a[1] + g * b[1]
    if t[0] == 'attr' and t[1][0] == 'cls':
        return {t: 1}, 0
    return None


def split(t):
    """(prefix, counter) of a name"""
    if t[0] == 'bin' and t[1] == '+':
        if is_c(t[2]) and t[2][1] == 'str':
            r = split(t[3])
            if r is not None:
                return t[2][2] + r[0], r[1]
        if is_c(t[3]) and t[3][1] == 'str' and t[3][2] == '':
            return split(t[2])
        a = t[2]
        if a[0] == 'bin' and a[1] == '+' and is_c(a[3]):        # (x + label) + number
            return split(('bin', '+', a[2], ('bin', '+', a[3], t[3]))) if not is_c(a[2]) else \
                split(('bin', '+', C(a[2][2] + a[3][2]), t[3]))
        return None
    if t[0] == 'call' and t[1] == ('ext', 'builtins.str') and len(t[2]) == 1:
        return ('', t[2][0]) if linear(t[2][0]) is not None else None
    if t[0] in ('fstr', 'joined'):
        pre = ''
        for x in t[1:-1]:
            if not (is_c(x) and x[1] == 'str'):
                return None
            pre += x[2]
        x = t[-1]
        r = split(x) or (('', x) if linear(x) is not None else None)
        return None if r is None else (pre + r[0], r[1])
    return None


def hook(I, func, args, kwargs, st, line):
    from ..loader import Func, Class
    if isinstance(func, Class) and func.name == 'aliasClass':
        d = dict(kwargs)
        return [(st, args[0] if args else d.get('name', NONE))]
    if isinstance(func, Func) and func.cls is not None and func.cls.name == 'named' and func.name == 'alias':
        if len(args) == 2:
            s = st.copy()
            al = I.freeze(s, args[1])
            als = al[1:] if al[0] in ('L', 'tup') else (al,)
            me = s.store.get((args[0], '_named__name'))
            s.store[('#aliases', 0)] = tuple(s.store.get(('#aliases', 0)) or ()) + tuple((me, a) for a in als)
            return [(s, NONE)]
    return None


def named_classes(prog):
    base = prog.cls('named')
    return [c for k, c in sorted(prog.classes.items()) if prog.is_sub(c, base) and '.classes.' in k]


class World:
    """a client program over freshly loaded classes"""

    def __init__(self, prog, src, concrete):
        self.c = Client(prog, src, path_limit=400, step_limit=400000, hooks=hook, interp=NameInterp, names=True)
        self.c.I.inline_classes = set(self.c.I.inline_classes)
        self.prog = prog
        self.reg = self.c.I.fresh('dict', prog.cls('aliasDict'))
        s = self.c.st
        s.store[(self.reg, '#c')] = ('D',)
        self.base = ('cls', prog.cls('named').key)
        s.store[(self.base, '_allInstacesDict')] = self.reg
        if concrete:
            for c in named_classes(prog):
                for n, e in c.attrs.items():
                    if e[0] == 'var' and n in self.c.I.class_written() and n != '_allInstacesDict':
                        v = e[1]
                        v = v.value if isinstance(v, ast.AST) and not isinstance(v, ast.Constant) and hasattr(v, 'value') else v
                        if isinstance(v, ast.Constant) and isinstance(v.value, (int, bool)):
                            s.store[(('cls', c.key), n)] = C(v.value)

    def run(self, fn, *args, st=None):
        return self.c.run(fn, *args, st=st)

    def names(self, st):
        """named objects and their names"""
        return {k[0]: v for k, v in st.store.items() if k[1] == '_named__name' and k[0][0] == 'obj'}

    def registry(self, st):
        r = st.store.get((self.base, '_allInstacesDict'))
        return self.c.I.content(st, r)


def entries(reg):
    if reg[0] != 'D':
        raise Unsupported(f'registry: {show(reg)[:100]}')
    return dict(reg[1:])


PROGRAM = """
def plain(): return {make}
def internal(): return {internal}
def external(): return {external}
def label(o): return o.label
def find(o, n): return o.getByNameOrAlias(n)
def name(o): return o.name
def rename(o): o.name = 'another name'
def reset(o): o._resetAll()
def again(o): return o.__class__()
def more(): return {make}, {internal}, {make}, {internal}, {make}
def aliased(o): o.alias = {alias!r}
"""
ARGS = {'copyStep': 'qProtocol(system=Qubit(frequency=f1))'}


def source(c, alias='nothing'):
    a = ARGS.get(c.name, '')
    f = lambda *xs: c.name + '(' + ', '.join(x for x in (a,) + xs if x) + ')'
    return PROGRAM.format(make=f(), internal=f('_internal=True'), external=f('_internal=False'), alias=alias)


def symbol_text(sym):
    return f'{sym[1][1].split(".")[-1]}.{sym[2]}'


def one(outs, what):
    if len(outs) != 1:
        raise Unsupported(f'{what}: {len(outs)} paths')
    s, v = outs[0]
    if isinstance(v, Raise):
        raise Unsupported(f'{what} raises {v.exc}')
    return s, v


def label_of(W, st, o):
    _, v = one(W.run('label', o, st=st), 'label')
    if not (is_c(v) and v[1] == 'str'):
        raise Unsupported('label: ' + show(v)[:60])
    return v[2]


def located(prog, c, name='__init__'):
    r = prog.lookup(c, name)
    return where(r[1][1]) if r is not None and isinstance(r[1][1], Func) else (c.module.path, c.node.lineno, c.name)


def judge_class(rep, prog, c):
    """names of the objects created together with one object of a class, from symbolic counters"""
    table = []
    base = prog.cls('named')
    at = located(prog, base)
    for kind, given in (('plain', False), ('internal', True), ('external', False)):
        key = f'{c.name}:{kind}'
        with rep.guard(key):
            W = World(prog, source(c), False)
            st, o = one(W.run(kind), kind)
            cls = W.c.I.typeof(o)
            if cls is None or cls is not c:
                rep.count('constructed as another class')
            reg = entries(W.registry(st))
            names = W.names(st)
            good, used = True, {}
            flag = st.store.get((o, '_internal'))
            if flag is not None and is_c(flag) and flag[2] is not given and cls is c:
                rep.bad(key, located(prog, c), f'{c.name} created with _internal={given} is marked as _internal={flag[2]}')
                continue
            for x, n in names.items():
                rep.count('objects named')
                xc = W.c.I.typeof(x)
                internal = st.store.get((x, '_internal'))
                r = split(n)
                lin = linear(r[1]) if r is not None else None
                if lin is None or not is_c(internal):
                    raise Unsupported(f'name of a {xc.name}: {show(n)[:100]}')
                label = label_of(W, st, x)
                if label not in r[0]:
                    rep.bad(key, at, f'the name of a {xc.name} is {r[0]!r} and a number, without its label {label!r}')
                    good = False
                    break
                if len(lin[0]) != 1 or list(lin[0].values()) != [1]:
                    raise Unsupported(f'counter of {xc.name}: {show(r[1])[:100]}')
                (sym, _), = lin[0].items()
                if sym[1] != ('cls', xc.key):
                    rep.bad(key, at, f'the name of a {xc.name} is numbered by {symbol_text(sym)}, not by a counter of its own class')
                    good = False
                    break
                end = linear(st.store.get((sym[1], sym[2]), sym))
                if end is None or end[0] != lin[0]:
                    raise Unsupported(f'counter {symbol_text(sym)} afterwards')
                if lin[1] < 1:
                    rep.bad(key, at, f'the name of a {xc.name} uses {symbol_text(sym)} before it is advanced')
                    good = False
                    break
                if end[1] < lin[1] or (sym, lin[1]) in used:
                    rep.bad(key, at, f'the name of a {xc.name} is numbered {symbol_text(sym)} + {lin[1]}, '
                            + ('as is another object' if (sym, lin[1]) in used else f'but the counter is {end[1]} more afterwards') + ': it is given out again')
                    good = False
                    break
                used[(sym, lin[1])] = x
                table.append((r[0], sym, xc.name, internal[2]))
                e = reg.get(n)
                if e is None:
                    rep.bad(key, at, f'a {xc.name} is not registered under its name')
                    good = False
                    break
                if e == x:
                    rep.bad(key, at, f'the registry keeps a {xc.name} alive: its entry is the object itself')
                    good = False
                    break
                if not is_ref(e):
                    raise Unsupported('registry entry ' + show(e)[:80])
                if e[2][0] != x:
                    rep.bad(key, at, f'the registry entry of a {xc.name} refers to another object')
                    good = False
                    break
                outs = W.run('find', x, n, st=st)
                if len(outs) == 1 and (isinstance(outs[0][1], Raise) or outs[0][1] != x):
                    v = outs[0][1]
                    rep.bad(key, located(prog, base, 'getByNameOrAlias'), f'looking up the name of a {xc.name} '
                            + (f'raises {v.exc}' if isinstance(v, Raise) else f'gives {show(v)[:60]}') + ' instead of the object')
                    good = False
                    break
            if not good:
                continue
            # internal objects leave the numbers of the others alone and the other way round
            for a, b in ((True, False), (False, True)):
                other = {sym for _, sym, cn, i in table if i is b and cn == c.name}
                made = [x for x in names if W.c.I.typeof(x) is c]
                if all(is_c(st.store.get((x, '_internal'))) and st.store[(x, '_internal')][2] is a for x in made):
                    for sym in other:
                        end = linear(st.store.get((sym[1], sym[2]), sym))
                        if end is not None and end != ({sym: 1}, 0):
                            rep.bad(key, located(prog, base, '_incrementInstances'), f'creating {"an internal" if a else "a user-created"} {c.name} '
                                    f'changes the counter {symbol_text(sym)} of the other kind')
                            good = False
            made = {('cls', W.c.I.typeof(x).key) for x in names}
            attrs = {sym[2] for _, sym, _, _ in table}
            for (k, n), v in st.store.items():
                if good and k[0] == 'cls' and n in attrs and k not in made and linear(v) not in (None, ({('attr', k, n): 1}, 0)):
                    rep.bad(key, at, f'creating a {c.name} advances the counter {symbol_text(("attr", k, n))} although none is created')
                    good = False
            if good:
                rep.ok(key, f'{len(names)} objects')
    return table


def judge_prefixes(rep, prog, rows):
    """names of different counters"""
    rows = sorted(set(rows), key=repr)
    at = located(prog, prog.cls('named'), '_named__namer')
    for i, (p, sym, cn, internal) in enumerate(rows):
        key = f'prefix {p} of {cn} ({"internal" if internal else "user-created"})'
        clash = None
        for q, other, dn, _ in rows:
            if other != sym and (p == q or p.startswith(q) and p[len(q):].isdigit()):
                clash = (q, other, dn)
                break
        if clash is None:
            rep.ok(key, f'numbered by {symbol_text(sym)}')
            continue
        with rep.guard(key):
            a, b = (next(c for c in named_classes(prog) if c.name == x) for x in (cn, clash[2]))
            bad = history(rep, prog, [a, b, a, b, b, a], internal=[internal, None])
            if bad:
                rep.bad(key, at, f'names of {cn} and {clash[2]} are numbered independently with the prefixes {p!r} and {clash[0]!r}: {bad}')
            else:
                rep.ok(key, 'the same prefix, but the numbers are kept apart')


def history(rep, prog, classes, internal=(None,), alias=None, reset=False):
    """creates objects of the classes one after the other from the initial counters; what is wrong with the names"""
    srcs = []
    for n, c in enumerate(classes):
        for j, i in enumerate(internal):
            a = ARGS.get(c.name, '')
            g = [x for x in (a, '' if i is None else f'_internal={i}') if x]
            srcs.append(f'def make{n}_{j}(): return {c.name}({", ".join(g)})')
    src = '\n'.join(srcs) + '\ndef find(o, n): return o.getByNameOrAlias(n)\ndef aliased(o, n): o.alias = n\ndef reset(o): o._resetAll()\n'
    W = World(prog, src, True)
    st = W.c.st
    first = None
    for n, c in enumerate(classes):
        for j in range(len(internal)):
            st, o = one(W.run(f'make{n}_{j}', st=st), c.name)
            if first is None:
                first = o
                if alias:
                    st, _ = one(W.run('aliased', o, C(alias), st=st), 'alias')
    if reset:
        old = dict(W.names(st))
        st, _ = one(W.run('reset', first, st=st), 'reset')
        if W.registry(st) != ('D',):
            left = W.registry(st)
            if left[0] != 'D':
                raise Unsupported('registry after the reset')
            zero = [c.name for c in classes if st.store.get((('cls', c.key), '_externalInstances')) == C(0)]
            return f'after _resetAll the registry has {len(left) - 1} entries' if zero else None
        for n, c in enumerate(classes):
            for j in range(len(internal)):
                st, o = one(W.run(f'make{n}_{j}', st=st), c.name)
        names = {o: n for o, n in W.names(st).items() if o not in old}
    else:
        names = W.names(st)
    if not all(is_c(n) for n in names.values()):
        raise Unsupported('names of a concrete history')
    seen = {}
    for o, n in names.items():
        if n in seen:
            return f'{n[2]} is the name of two objects'
        seen[n] = o
    reg = entries(W.registry(st))
    for o, n in names.items():
        rep.count('objects created in histories')
        e = reg.get(n)
        if e is None or is_ref(e) and e[2][0] != o:
            return f'{n[2]} is registered as {"nothing" if e is None else "another object"}'
        v = one(W.run('find', o, n, st=st), 'find')[1]
        if v != o:
            return f'looking up {n[2]} gives another object'
    return None


NAMES = """
def keep():
    a = aliasClass(name='first')
    a.name = 'second'
    return a.name
def aliases():
    a = aliasClass(name='first')
    a.alias = 'second'
    a.alias = ['third', 'fourth']
    return a.name
"""


def judge_fixed(rep, prog):
    at = located(prog, prog.cls('aliasClass'), 'name')
    for fn in ('keep', 'aliases'):
        key = f'name object:{fn}'
        with rep.guard(key):
            c = Client(prog, NAMES, names=True)
            c.I.inline_classes = set(c.I.inline_classes) | {'aliasClass'} | {prog.cls('aliasClass').key}
            outs = c.run(fn)
            vals = [v for _, v in outs if not isinstance(v, Raise)]
            if all(v == C('first') for v in vals):
                rep.ok(key, 'the name stays')
            elif any(is_c(v) and v != C('first') for v in vals):
                rep.bad(key, at, 'a name that has been set can be replaced')
            else:
                raise Unsupported(show(vals[0])[:80])
    for cn in ('Qubit', 'Sweep', 'QTerm', 'qProtocol'):
        key = f'{cn}:name assigned'
        with rep.guard(key):
            c = prog.cls(cn)
            W = World(prog, source(c), True)
            st, o = one(W.run('plain'), 'plain')
            n = W.names(st)[o]
            for s, v in W.run('rename', o, st=st):
                if isinstance(v, Raise):
                    s = s
                if W.names(s).get(o) != n:
                    rep.bad(key, located(prog, prog.cls('named'), 'name'), f'assigning the name of a {cn} changes it')
                    break
            else:
                rep.ok(key, 'unchanged')


def check(prog, tier):
    rep = Report('C11', prog, tier, RULE, 'The creation of one object of every class of the library, user-created and internal, is followed with '
                 'symbolic counters (so for every history of creations); prefixes that different counters share, aliases, resets and sequences of '
                 'creations are followed from the initial counters.',
                 ['dictionaries of named objects find keys by any alias (decided by C10)', 'classes defined outside the library are not covered'])
    classes = named_classes(prog)
    rows = []
    out = run_jobs([(judge_class, (prog, c)) for c in classes])
    for lines, table in out:
        for x in lines:
            getattr(rep, x[0])(*x[1:])
        rows += table or []
    rep.count('classes', len(classes))
    judge_prefixes(rep, prog, rows)
    judge_fixed(rep, prog)
    base = located(prog, prog.cls('named'))
    jobs = []
    labels = {}
    for p, sym, cn, internal in rows:
        if not internal:
            labels[cn] = p
    main = [c for c in classes if c.name in labels]
    for c in main:
        jobs.append((judge_history, (prog, f'{c.name} again', [c] * 3, (None, True), None, False)))
        jobs.append((judge_history, (prog, f'{c.name} with an alias like a name', [c] * 5, (None,), labels[c.name] + '3', False)))
        jobs.append((judge_history, (prog, f'{c.name} after a reset', [c] * 2, (None, True), None, True)))
    if tier != 'quick':
        for i, c in enumerate(main):
            for d in main[:i]:
                jobs.append((judge_history, (prog, f'{c.name} and {d.name}', [c, d, c, d], (None, True), None, False)))
    parallel(rep, jobs)
    return rep.finish(60)


def judge_history(rep, prog, what, classes, internal, alias, reset):
    key = 'history:' + what
    with rep.guard(key):
        bad = history(rep, prog, classes, internal, alias, reset)
        if bad:
            rep.bad(key, located(prog, prog.cls('named')), f'creating {what}: {bad}')
        else:
            rep.ok(key, f'{len(classes) * len(internal)} objects')


def run_jobs(jobs):
    import multiprocessing
    from . import histories
    histories.JOBS = jobs
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs))) as pool:
        return pool.map(run_job, range(len(jobs)), chunksize=1)


def run_job(n):
    from . import histories
    sys.setrecursionlimit(100000)
    fn, args = histories.JOBS[n]
    rep = Lines()
    r = fn(rep, *args)
    return rep.out, r

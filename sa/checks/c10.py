"""C10: every primitive dictionary access by key in aliasDict uses a resolved key; names compare by shared members; lookup by
name or alias dereferences the registry entry; containers keyed by names are aliasDicts."""
import ast
from .common import *
from ..effects import walk_events
from ..client import Client

RULE = ('key-resolution typestate: at every primitive dict operation the key is either an existing key found equal to the '
        'requested one or the requested key after an exhausted search')
KEYED = {'__getitem__': 0, '__setitem__': 0, '__delitem__': 0, '__contains__': 0, 'get': 0, 'pop': 0, 'setdefault': 0}
REQUIRED = ['__getitem__', '__setitem__', '__delitem__', '__contains__', 'get', 'pop', 'setdefault', 'update']


def is_keys_of(t, selfv):
    """t iterates over the keys of selfv (possibly of a modified content)"""
    while t and t[0] in ('keys', 'content', 'op', 'put', 'del', 'lv', 'upd', 'reversed', 'fold'):
        if t[0] == 'lv':
            return selfv in list(subterms(t))
        if t[0] in ('fold',):
            return selfv in list(subterms(t))
        t = t[1] if t[0] != 'op' else t[2]
    return t == selfv


def resolved(key, facts, selfv):
    """key may be given to a primitive operation under these facts"""
    if key[0] in ('elem', 'first', 'last') and is_keys_of(key[1], selfv):
        return any(f[0] in ('eq', '==') and key in f[1:] and v is True for f, v in facts.items()) or key[0] != 'elem' \
            or 'loopkey'
    for f, v in facts.items():
        if f[0] == 'in' and f[1] == key and v is True and is_keys_of(f[2], selfv):
            return True
        if f[0] == 'nobreak' and v is True and is_keys_of(f[1], selfv):
            return True
    return False


def found_key(key, facts):
    return [f for f, v in facts.items() if f[0] in ('eq', '==') and key in f[1:] and v is True]


def scan(evs, facts):
    for e in evs:
        if e[0] == 'loop':
            for fs, sub, sig in e[2]:
                d = dict(facts)
                d.update(fs)
                yield from scan(sub, d)
        else:
            yield e, facts


def requested(args, selfv, f):
    return [a for a in args if a != selfv]


def check(prog, tier):
    rep = Report('C10', prog, tier, RULE,
                 'Every method of the alias dictionary was summarised with all dictionary primitives opaque; an obligation is '
                 'one primitive operation on one path, one comparison or look-up function, or one name-keyed container.',
                 ['code outside the package does not call dict primitives of the base class on alias dictionaries',
                  'hash-equal keys are equal (a key found in keys() by hashing denotes the same object)'])
    A = prog.cls('aliasDict')
    N = prog.cls('aliasClass')
    for name in REQUIRED:
        r = prog.lookup(A, name)
        if r is None or r[0] is not A:
            rep.bad(f'unresolved:aliasDict.{name}:inherited', (A.module.path, A.node.lineno, 'aliasDict'),
                    f'aliasDict.{name} is not overridden, so it looks up the given key without resolving aliases')
    for name, ent in sorted(A.attrs.items()):
        if ent[0] != 'func':
            continue
        f = ent[1]
        I = Interp(prog, path_limit=4000, step_limit=400000)
        I.dict_classes = set()

        def hook(I2, func, args, kwargs, st, line, me=f):
            if isinstance(func, Func) and func.cls is A and func.name in REQUIRED and func is not me and I2.stack:
                s2 = st.copy()      # checked on its own: resolves its key
                fr = tuple(I2.freeze(s2, a) for a in args)
                s2.ev('call', func.key, fr, (), line)
                return [(s2, ('call', func.key, fr, ()))]
            return None
        I.call_hook = hook
        selfv = ('sym', params_of(f)[0])
        I.types[selfv] = A
        try:
            args = [('sym', p) for p in params_of(f)]
            if f.node.args.vararg:
                args.append(('star', ('sym', f.node.args.vararg.arg)))
            outs = I.run(f, args)
        except Unsupported as e:
            rep.undecided(f'aliasDict.{name}', e)
            continue
        nprim = 0
        ncall = 0
        bad = False
        key_par = args[1] if len(args) > 1 else None
        for s, v in outs:
            for e, facts in scan(s.events, s.facts):
                if e[0] == 'mcall' and e[1] == selfv and e[2] in KEYED:
                    op, key, line = e[2], (e[3] or (None,))[0], e[5]
                elif e[0] == 'mut' and e[1] == selfv and e[2] in KEYED:
                    op, key, line = e[2], (e[3] or (None,))[0], e[4]
                elif e[0] in ('mut', 'mcall') and e[1] == selfv and e[2] in ('update', '__ior__'):
                    bad = True
                    rep.bad(f'unresolved:aliasDict.{name}:update', where(f, e[4] if e[0] == 'mut' else e[5]),
                            'primitive update with unresolved keys')
                    continue
                else:
                    if e[0] == 'call' and e[1] in {A.attrs[m][1].key for m in REQUIRED if m in A.attrs}:
                        ncall += 1
                    continue
                if key is None:
                    continue
                nprim += 1
                ok = resolved(key, facts, selfv)
                if key[0] == 'elem' and not found_key(key, facts):
                    # an existing key that was not compared with the requested one
                    ok = False
                if not ok:
                    bad = True
                    rep.bad(f'unresolved:aliasDict.{name}:{op}', where(f, line),
                            f'{op}({show(key)[:60]}) on the underlying dict is reached with a key that was not resolved by '
                            f'name and aliases')
            # results
            if name == '__contains__' and not isinstance(v, Raise):
                t = v
                if t[0] == 'mcall' and t[1] == selfv and t[2] == '__contains__':
                    pass        # resolved key checked above
                elif is_c(t):
                    pos = any(f_[0] in ('in', 'eq') and key_par in f_[1:] and vv is True for f_, vv in s.facts.items())
                    neg = any(f_[0] == 'nobreak' and vv is True for f_, vv in s.facts.items())
                    if (t[2] is True and not pos) or (t[2] is False and (not neg or pos)):
                        bad = True
                        rep.bad('unresolved:aliasDict.__contains__:result', where(f), f'returns {t[2]} without a search by alias')
                elif t[0] == 'cmp' and t[1] == 'in':
                    if not resolved(t[2], s.facts, selfv):
                        bad = True
                        rep.bad('unresolved:aliasDict.__contains__:result', where(f), 'tests membership of the unresolved key')
            if name in ('setdefault', 'get', 'pop') and key_par is not None and not isinstance(v, Raise):
                raw = any(k[0] == 'in' and k[1] == key_par and vv is False and k[2][0] == 'keys'
                          for k, vv in s.facts.items())
                searched = any(k[0] == 'nobreak' and vv is True for k, vv in s.facts.items())
                stores = asks = False
                for e in walk_events(s.events):
                    if e[0] == 'call' and key_par in e[2][1:2]:
                        m = e[1].rsplit('.', 1)[-1]
                        if m == '__setitem__':
                            stores = not asks
                            break
                        asks = asks or m in ('__contains__', '__getitem__', 'get', 'pop')
                dflt = args[2] if len(args) > 2 else None
                if raw and not searched and not asks and (stores or v == dflt):
                    bad = True
                    rep.bad(f'unresolved:aliasDict.{name}:absence', where(f),
                            'treats the key as absent after testing it among the names only, without its aliases')
            if name == 'setdefault' and not isinstance(v, Raise):
                dflt = args[2] if len(args) > 2 else None
                # returning the default without having stored it, or the value of another key
                if v == dflt and not any(e[0] == 'mut' and e[2] == '__setitem__' for e in walk_events(s.events)):
                    bad = True
                    rep.bad('result:aliasDict.setdefault', where(f), 'returns the default without storing it')
        rep.count('primitive_operations', nprim)
        if name in REQUIRED and nprim + ncall == 0 and not bad and not any(
                isinstance(v, Raise) for s, v in outs):
            reads = [t for s, v in outs if not isinstance(v, Raise) for t in [v]]
            rep.undecided(f'aliasDict.{name}', 'no primitive operation recognised')
        elif not bad:
            rep.ok(f'aliasDict.{name}', f'{nprim} primitive operations, {ncall} through checked methods, on {len(outs)} paths')
    # ---- get: default on a missing key, value otherwise
    f = prog.lookup(A, 'get')[1][1]
    # ---- equality and hash of names
    f = prog.lookup(N, '__eq__')[1][1]
    I = Interp(prog)
    ps = [('sym', p) for p in params_of(f)]
    I.types[ps[0]] = N
    nm, al = '_aliasClass__name', '_aliasClass__alias'

    def runeq(typed):
        I = Interp(prog)
        I.types[ps[0]] = N
        I.exact.add(ps[0]) if hasattr(I, 'exact') and isinstance(I.exact, set) else None
        if typed:
            I.types[ps[1]] = N
        else:
            I.types.pop(ps[1], None)
        return I, I.run(f, ps)
    try:
        I, outs = runeq(True)
        subs, plain = set(), False
        for s, v in outs:
            if isinstance(v, Raise) or any(k[0] == 'is' and '__class__' in repr(k) and vv is False for k, vv in s.facts.items()):
                continue
            for t in [v] + list(s.facts):
                subs |= set(subterms(t))
            if v[0] == 'all' or (v[0] == 'not' and v[1][0] == 'any'):
                rep.bad('equality:aliasClass', where(f), 'names must be equal as soon as they share one member')
                plain = True
        missing = [f'{o[1]}.{a.split("__")[1]}' for o in ps for a in (nm, al) if ('attr', o, a) not in subs]
        if missing:
            rep.bad('equality:aliasClass', where(f), f'the comparison of two names ignores {", ".join(missing)}')
        elif not plain:
            rep.ok('equality:aliasClass')
        I, outs = runeq(False)
        subs, plain = set(), False
        for s, v in outs:
            if isinstance(v, Raise) or any(k[0] == 'is' and '__class__' in repr(k) and vv is True for k, vv in s.facts.items()):
                continue
            for t in [v] + list(s.facts):
                subs |= set(subterms(t))
            if v[0] == 'all':
                plain = True
                rep.bad('equality:aliasClass:str', where(f), 'a name must be equal to each of its members')
        missing = [a.split('__')[1] for a in (nm, al) if ('attr', ps[0], a) not in subs]
        if missing:
            rep.bad('equality:aliasClass:str', where(f), f'the comparison with a string ignores {", ".join(missing)}')
        elif not plain:
            rep.ok('equality:aliasClass:str')
    except Unsupported as e:
        rep.undecided('equality:aliasClass', e)
    h = prog.lookup(N, '__hash__')
    if h is None or h[0] is not N:
        rep.bad('hash:aliasClass', (N.module.path, N.node.lineno, 'aliasClass'), 'names that compare equal need a hash of their own')
    else:
        f = h[1][1]
        I = Interp(prog)
        I.types[('sym', 'self')] = N
        for s, v in I.run(f, [('sym', params_of(f)[0])]):
            subs = set(subterms(v)) if not isinstance(v, Raise) else set()
            if any(t[:1] == ('attr',) and t[2] == al for t in subs):
                rep.bad('hash:aliasClass', where(f), 'the hash depends on the aliases, which can change while the name is a key')
            elif not any(t[:1] == ('attr',) and t[2] == nm for t in subs):
                rep.bad('hash:aliasClass', where(f), 'the hash of a name differs from the hash of the equal string')
            else:
                rep.ok('hash:aliasClass')
    members(prog, rep)
    lookup(prog, rep)
    containers(prog, rep)
    return rep.finish(minimum=12)


MEMBERS = '''
def strings():
    n = aliasClass(name='n', alias=['a', 'b', 'c'])
    n.alias = 'd'
    m = aliasClass(name='m')
    return [n.__eq__('n'), n.__eq__('a'), n.__eq__('b'), n.__eq__('c'), n.__eq__('d'), m.__eq__('m'), n.__eq__('z'), m.__eq__('n')]
def names():
    n = aliasClass(name='n', alias=['a', 'b', 'c'])
    return [n.__eq__(aliasClass(name='n')), n.__eq__(aliasClass(name='a')), n.__eq__(aliasClass(name='c', alias=['z'])),
            n.__eq__(aliasClass(name='m', alias=['n'])), n.__eq__(aliasClass(name='m', alias=['x', 'b'])),
            n.__eq__(aliasClass(name='m', alias=['a', 'x'])), n.__eq__(aliasClass(name='m', alias=['x', 'c', 'y'])),
            n.__eq__(aliasClass(name='m', alias=['x', 'y'])), n.__eq__(aliasClass(name='m'))]
'''
EQUAL = dict(strings=6, names=7)


def members(prog, rep):
    """a name with several aliases equals each of its members, and any name it shares one with"""
    f = prog.lookup(prog.cls('aliasClass'), '__eq__')[1][1]
    c = Client(prog, MEMBERS)
    for what, n in EQUAL.items():
        with rep.guard(f'members:{what}'):
            for s, v in c.run(what):
                if isinstance(v, Raise):
                    rep.bad(f'members:{what}', where(f), f'comparing {what} raises {v.exc}')
                    break
                got = c.I.freeze(s, v)[1:]
                for i, g in enumerate(got):
                    if g[0] != 'c':
                        raise Unsupported(f'comparison {i} of {what} gives {show(g)[:80]}')
                    if bool(g[2]) != (i < n):
                        rep.bad(f'members:{what}', where(f), f'comparison {i} of {what} is {g[2]}: names and strings are equal exactly if '
                                'they share a member')
                        break
                else:
                    rep.ok(f'members:{what}', f'{len(got)} comparisons')


def lookup(prog, rep):
    named = prog.cls('named')
    f = prog.lookup(named, 'getByNameOrAlias')[1][1]
    ps = [('sym', p) for p in params_of(f)]
    for given in ('object', 'key'):
        I = Interp(prog)
        I.types[ps[0]] = named
        if given == 'object':
            I.types[ps[1]] = named
        reg = ('attr', ps[0], '_allInstaces')
        outs = I.run(f, ps)
        bad = False
        for s, v in outs:
            if isinstance(v, Raise):
                if given == 'object':
                    bad = True
                    rep.bad('lookup:object', where(f), 'an object given itself is rejected')
                continue
            if given == 'object':
                if v != ps[1]:
                    bad = True
                    rep.bad('lookup:object', where(f), f'returns {show(v)[:80]} instead of the given object')
                continue
            if v == ps[1] and any(k[0] in ('I+', 'isinst', 'K') and ps[1] in k for k in s.facts):
                continue        # the path on which an object was given
            t = v
            deref = t[0] == 'call' and not (isinstance(t[1], str) or t[1][0] == 'ext')
            inst = [(k, vv) for k, vv in s.facts.items() if k[0] == 'isinst']
            src = [x for x in terms(t) if x[0] in ('mcall', 'idx') and ps[1] in set(subterms(x))]
            if not src:
                bad = True
                rep.bad('lookup:key', where(f), f'returns {show(t)[:80]}, which is not an entry of the registry')
            elif not deref and not any(k[0] in ('I+', 'isinst') and t in k for k in s.facts) and \
                    not (t in I.types and prog.is_sub(I.types[t], named)):
                bad = True
                rep.bad('lookup:deref', where(f), 'returns the weak reference instead of the object')
        if not bad:
            rep.ok(f'lookup:{given}', f'{len(outs)} paths')


def containers(prog, rep):
    """attributes that are filled with keys X.name must be created as aliasDict"""
    keyed = {}
    for f in prog.funcs.values():
        if f.cls is None or f.is_lambda:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Attribute) \
                    and n.slice.attr == 'name' and isinstance(n.value, ast.Attribute):
                a = n.value.attr
                if a.startswith('__') and not a.endswith('__'):
                    a = '_' + f.cls.name.lstrip('_') + a
                keyed.setdefault(a, (f, n.lineno))
    for a, (f, line) in sorted(keyed.items()):
        made = []
        for g in prog.funcs.values():
            for n in ast.walk(g.node):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = n.targets
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    tg = [n.target]
                for t in tg:
                    if isinstance(t, ast.Attribute):
                        b = t.attr
                        if b.startswith('__') and not b.endswith('__') and g.cls is not None:
                            b = '_' + g.cls.name.lstrip('_') + b
                        if b == a and isinstance(n.value, ast.Call):
                            fn = n.value.func
                            made.append((g, n.lineno, fn.id if isinstance(fn, ast.Name) else getattr(fn, 'attr', '?')))
                        elif b == a and isinstance(n.value, (ast.Dict, ast.DictComp)):
                            made.append((g, n.lineno, 'dict'))
        wrong = [m for m in made if m[2] in ('dict', 'OrderedDict', 'defaultdict')]
        for g, l, k in wrong:
            rep.bad(f'container:{a}', where(g, l), f'{a} is keyed by names but created as {k}, so aliases do not find its entries')
        if not wrong:
            rep.ok(f'container:{a}', f'{len(made)} creations')

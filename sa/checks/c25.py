"""C25: updates are applied in order before, and undone in reverse order after, the propagator of a protocol is created."""
from .common import *
from ..scen import Scene, equal_under

RULE = ('abstract heap: after the creation every updated parameter of every system holds the value it had before; while it runs, the '
        'value of the last update that covers it')


def build(prog, cls, layout, custom):
    """a protocol with updates on overlapping systems; layout: tuple of tuples of system numbers"""
    S = Scene(prog)
    U = prog.cls('Update')
    P = S.obj('protocol', cls)
    key = ('sym', 'key')
    n = max(max(x) for x in layout) + 1
    systems = [S.obj(f's{i}') for i in range(n)]
    S.I.kinds[('sym', 'key')] = frozenset('o')
    ups = []
    for j, idx in enumerate(layout):
        u = S.obj(f'update{j}', U)
        S.members(u, 'subSys', [systems[i] for i in idx])
        S.putp(u, 'key', key)
        S.put(u, '_aux', FALSE)
        S.put(u, 'value', ('sym', f'v{j}'))
        S.putp(u, 'updateFunction', ('ext', f'user.update{j}') if custom[j] else NONE)
        for nm in ('setup', 'setback'):
            # instance attributes that the constructor binds to the class's own methods
            for k in U.attrs:
                if k == '_' + nm:
                    S.put(u, nm, ('bm', S.I.func_val(U.attrs[k][1]), u))
        ups.append(u)
    S.putp(P, 'updates', S.lst(ups))
    S.put(P, '_getUnitary', ('ext', 'user.create'))
    snaps = []

    def value(st, s):
        v = S.I.sget(st, (s, ('dyn', key)))
        return ('dynattr', s, key) if v is None else v

    def ext(I, q, args, kwargs, st, line):
        if q == 'user.create':
            s = st.copy()
            s.ev('snap', tuple(value(s, x) for x in systems), line)
            return [(s, ('sym', 'newUnitary'))]
        if q.startswith('user.update'):
            j = int(q[len('user.update'):])
            s = st.copy()
            for i in layout[j]:
                s.store[(systems[i], ('dyn', key))] = ('sym', f'custom{j}_{i}')
            return [(s, NONE)]
        return None
    S.I.ext_hook = ext
    return S, P, systems, key, value


def scenario(prog, rep, cls, layout, custom, name):
    S, P, systems, key, value = build(prog, cls, layout, custom)
    kname = f'{cls.name}:{name}'
    fn = prog.lookup(cls, 'getUnitary')[1][1]
    # the state of the systems cannot decide whether the protocol is open
    outs = S.call(P, 'getUnitary', (NONE, NONE))
    n = 0
    problems = []
    for st, v in outs:
        if isinstance(v, Raise):
            continue
        snaps = [e for e in st.events if e[0] == 'snap']
        if not snaps:
            continue
        n += 1
        final = [value(st, s) for s in systems]
        orig = [('dynattr', s, key) for s in systems]
        for i, s in enumerate(systems):
            if not equal_under(st, final[i], orig[i]):
                if final[i][0] in ('sym', 'dynattr'):
                    problems.append(('left', f'system {i} of updates {layout} keeps {show(final[i])} instead of its own '
                                     f'value after the propagator is created'))
                else:
                    rep.undecided(kname, f'value of system {i}: {show(final[i])[:80]}')
        for sn in snaps:
            for i, s in enumerate(systems):
                js = [j for j, idx in enumerate(layout) if i in idx]
                want = orig[i] if not js else ('sym', f'custom{js[-1]}_{i}') if custom[js[-1]] else ('sym', f'v{js[-1]}')
                if not equal_under(st, sn[1][i], want):
                    problems.append(('during', f'system {i} of updates {layout} has {show(sn[1][i])} instead of '
                                     f'{show(want)} while the propagator is created'))
    if n == 0:
        rep.undecided(kname, 'the creation is not reached')
        return
    rep.count('paths', n)
    if problems:
        kind, txt = problems[0]
        rep.bad(f'{kind}:{short(fn.key)}:{name}', where(fn), txt)
    else:
        rep.ok(kname, f'{n} paths, updates on systems {layout}')


def check(prog, tier):
    rep = Report('C25', prog, tier, RULE,
                 'getUnitary of every protocol class was interpreted over abstract heaps with one to three updates on one to '
                 'three shared or distinct systems, with values and with update functions.',
                 ['setting a parameter to a value and reading it returns that value',
                  'updates whose setup and setback were replaced by the user are outside the rule'])
    G = prog.cls('genericProtocol')
    layouts = [((0,),), ((0, 1),), ((0, 1, 2),), ((0,), (0,)), ((0, 1), (1, 2)), ((0, 1), (1, 0)), ((0,), (1,)), ((0, 1), (0,), (1,))]
    if tier == 'thorough':
        layouts += [((0, 1, 2, 3),), ((0, 1), (0, 1), (0, 1)), ((0, 1, 2), (2, 1, 0)), ((0,), (0, 1), (2, 0))]
    seen = {}
    for c in prog.classes.values():
        if not prog.is_sub(c, G):
            continue
        r = prog.lookup(c, 'getUnitary')
        if r is None:
            continue
        c2 = (r[1][1].key, prog.lookup(c, '_paramUpdatedToFalse')[1][1].key if prog.lookup(c, '_paramUpdatedToFalse') else '')
        seen.setdefault(c2, c)
    for c in seen.values():
        for lay in layouts:
            for custom in ([False] * len(lay), [True] * len(lay)) + (([True] + [False] * (len(lay) - 1),) if len(lay) > 1 else ()):
                nm = ''.join('c' if x else 'v' for x in custom) + str(lay).replace(' ', '')
                with rep.guard(f'{c.name}:{nm}'):
                    scenario(prog, rep, c, lay, custom, nm)
    return rep.finish(minimum=1)

"""C13: with worker processes a run performs and organises exactly what the serial run does."""
from .common import *
from .c15 import Run

RULE = ('relational heap analysis: the serial and the parallel run of one abstract simulation are interpreted, with every worker confined to a '
        'copy of the heap, and their traces and final containers are compared')


def execute(prog, owners, lens, avg, args, memory=None, **more):
    W = Run(prog, owners, lens, average=avg, **more)
    key = ('cls', prog.cls('_poolMemory').key)
    W.S.put(key, 'coreCount', memory if memory is not None else NONE)
    kw = tuple((k, W.pool if v == 'pool' else v) for k, v in args)
    outs = []
    W.mapped = None
    for s, v in W.S.call(W.sim, 'run', (), kw):
        if isinstance(v, Raise):
            outs.append((None, v))
            continue
        res, sts = W.final(s, 'resultsDict'), W.final(s, 'states')
        tr = [(e[1], e[2]) for e in s.events if e[0] == 'user']
        outs.append((dict(results=res, states=sts, returned=W.S.I.freeze(s, v), trace=tr, work=W.work), None))
    return W, outs


SERIAL = [('p=False', (('p', FALSE),), None)]
PARALLEL = [('p=True', (('p', TRUE),), None), ('p=True, coreCount=3', (('p', TRUE), ('coreCount', C(3))), None),
            ("p=True, coreCount='all'", (('p', TRUE), ('coreCount', C('all'))), None), ('p=pool', (('p', 'pool'),), None),
            ('p=True after a parallel run', (('p', TRUE),), C(4)), ('default after a parallel run', (), C(4))]


def norm(t):
    """dictionaries without the order of their keys"""
    if t[0] == 'D':
        return ('D',) + tuple(sorted(((k, norm(v)) for k, v in t[1:]), key=repr))
    return t


def runs(prog, rep, tier):
    f = prog.lookup(prog.cls('Simulation'), 'run')[1][1]
    m = prog.fn('quanguru.classes.modularSweep.runSimulation')
    lens = [(), (1,), (2,), (3,), (1, 2), (2, 2)] + ([(2, 3), (2, 1, 2)] if tier == 'thorough' else [])
    for n in lens:
        for owners in (('a', 'b'), ('a', 'a')):
            for avg in ((False, True) if n == (2,) and owners == ('a', 'b') else (False,)):
                base = f'{"".join(owners)}:{n}' + (':average' if avg else '')
                with rep.guard(base):
                    W, outs = execute(prog, owners, n, avg, SERIAL[0][1])
                    good = [o for o, e in outs if o is not None]
                    if avg and good:
                        W2, outs2 = execute(prog, owners, n, avg, PARALLEL[0][1])
                        key = lambda o: repr({q: norm(t) for q, t in o['results'].items()})
                        a, b = {key(o) for o in good}, {key(o) for o, e in outs2 if o is not None}
                        if a == b:
                            rep.ok(base, f'{len(a)} outcomes')
                        elif b and len(b) <= len(a) and not b & a:
                            rep.bad('organise:average', where(m), f'{base}: the averages of a parallel run differ from those of the serial run')
                        else:
                            rep.undecided(base, 'averages')
                        continue
                    if len(good) != 1:
                        rep.undecided('serial:' + base, f'{len(good)} paths')
                        if not good:
                            continue
                    one = good[0]
                    for name, args, mem in PARALLEL if n in ((2,), ()) else PARALLEL[:1]:
                        nm = f'{base}:{name}'
                        with rep.guard(nm):
                            compare(prog, rep, m, nm, W, one, *execute(prog, owners, n, avg, args, mem))


    # objects that store no results, runs that keep no states
    who = [x[1] for x in (lambda w: [w.sim] + w.pros + list(w.systems.values()))(Run(prog, ('a', 'b'), (2,)))]
    for nm, more in [('nothing stored by ' + x, dict(quiet=(x,))) for x in who] + [('no results', dict(quiet=tuple(who))),
                                                                                  ('states not kept', dict(keep=False))]:
        with rep.guard(nm):
            W, outs = execute(prog, ('a', 'b'), (2,), False, SERIAL[0][1], **more)
            good = [o for o, e in outs if o is not None]
            if len(good) != 1:
                raise Unsupported(f'{len(good)} paths')
            compare(prog, rep, m, nm, W, good[0], *execute(prog, ('a', 'b'), (2,), False, PARALLEL[0][1], **more))


def compare(prog, rep, f, nm, W0, one, W, outs):
    n = 0
    raised = None
    for o, e in outs:
        if o is None:
            raised = e
            continue
        n += 1
        work = o['work']
        if work == [] and not any(e[0] == 'map' for e in o['trace']):
            if len(W.points) and o['trace'] == one['trace']:
                # ran serially: same work, nothing to compare further
                pass
            else:
                rep.undecided(nm, 'work handed to processes in a way that is not followed')
                return
        else:
            per = split(one['trace'], W0)
            if len(work) != len(per):
                rep.bad('points', where(f), f'{nm}: {len(work)} points are computed in parallel, {len(per)} in a serial run')
                return
            for i, (a, b) in enumerate(zip(per, work)):
                if a != b:
                    k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    x = a[k] if k < len(a) else ('nothing', ())
                    y = b[k] if k < len(b) else ('nothing', ())
                    rep.bad('point:' + x[0].split('.')[0], where(f), f'{nm}: at point {i} a worker does {y[0]}({", ".join(show(z)[:60] for z in y[1])}) '
                            f'where a serial run does {x[0]}({", ".join(show(z)[:60] for z in x[1])})')
                    return
            rest = [x for x in o['trace'] if x[0] != 'map']
            if rest:
                rep.bad('extra', where(f), f'{nm}: {rest[0][0]} is also done outside the workers')
                return
        for what in ('results', 'states'):
            a, b = one[what], o[what]
            if a is None or b is None:
                rep.undecided(nm, what)
                return
            for q in a:
                x, y = norm(a[q]), norm(b[q])
                if x == y:
                    continue
                if x[0] != 'D' or y[0] != 'D' or any(t[0] in ('call', 'mcall', 'content') for t in terms(y)):
                    rep.undecided(nm, f'{what} of {q[1][4:]} {show(y)[:300]}')
                    return
                dx, dy = dict(x[1:]), dict(y[1:])
                for k in list(dx) + list(dy):
                    if dx.get(k) != dy.get(k):
                        rep.bad('organise:' + what, where(f), f'{nm}: the {what} of {q[1][4:]} under {show(k)} are '
                                f'{show(dy[k])[:150] if k in dy else "missing"} instead of {show(dx[k])[:150] if k in dx else "nothing"}')
                        return
        if norm(o['returned']) != norm(one['returned']):
            rep.bad('returned', where(f), f'{nm}: the run returns {show(o["returned"])[:150]}, a serial run {show(one["returned"])[:150]}')
            return
    if n:
        rep.ok(nm, f'{n} paths')
        rep.count('paths', n)
    elif raised is not None and raised.exc in ('TypeError', 'KeyError', 'IndexError', 'AttributeError', 'UnboundLocalError'):
        rep.undecided(nm, f'every path ends in {raised.exc}, line {raised.line}')
    else:
        rep.undecided(nm, 'no path returns')


def split(tr, W):
    """the trace of each point of a serial run"""
    if not W.lens:
        return [tr]
    out = []
    for x in tr:
        if x[0] == 'sweep':
            out.append([])
        if out:
            out[-1].append(x)
    return out


def check(prog, tier):
    rep = Report('C13', prog, tier, RULE,
                 'Runs with up to three sweep axes, separate and shared systems and averages were interpreted serially and with each '
                 'way to ask for processes.',
                 ['Pool.map returns the results in the order of its arguments and its workers do not change the heap of the caller',
                  'objects arrive in workers as they are (C12)', 'calculated values are not part of the property'])
    with rep.guard('runs'):
        runs(prog, rep, tier)
    return rep.finish(minimum=1)

"""C16: sweeps enumerate the product of their axes, each parameter takes the value of its own axis, results keep that shape."""
import itertools
from .common import *
from ..scen import Scene, equal_under
from ..algebra import Algebra, Unknown

RULE = ('mixed-radix normal form of the index every sweep receives, compared with the digit of its axis; abstract heaps for applying '
        'values, shaping results, adding and removing sweeps')
K = 'quanguru.classes.'


# ---------------------------------------------------------------------------------- digits
class Digits:
    """('d', factors divided out, modulus) of the index symbol"""

    def __init__(self, ind):
        self.ind = ind

    def norm(self, t):
        if t == self.ind:
            return ('d', (), None)
        if is_c(t):
            return t
        if t[0] == 'call' and t[1] in (('ext', 'builtins.int'), ('ext', 'math.floor'), ('ext', 'numpy.int64'), ('ext', 'operator.index')) \
                and len(t[2]) == 1:
            x = t[2][0]
            if x[0] == 'bin' and x[1] == '/':
                try:
                    return self.norm(x)
                except Unknown:
                    return self.div(self.norm(x[2]), x[3])      # truncation of a positive quotient
            return self.norm(x)
        if t[0] == 'bin' and t[1] == '%':
            return self.mod(self.norm(t[2]), t[3])
        if t[0] == 'bin' and t[1] == '//':
            x, n = t[2], t[3]
            if x[0] == 'bin' and x[1] == '-':
                r = self.exact(x, n)
                if r is not None:
                    return r
            return self.div(self.norm(x), n)
        if t[0] == 'bin' and t[1] == '/':
            r = self.exact(t[2], t[3])
            if r is not None:
                return r
            x, n = t[2], t[3]
            if x[0] == 'bin' and x[1] == '-' and x[3][0] == 'bin' and x[3][1] == '%' and x[3][2] == x[2] and x[3][3][0] == 'len' \
                    and n[0] == 'len' and x[3][3] != n:
                return ('d', (('over', x[3][3], n),), None)     # never a whole index of one axis for arbitrary lengths
            raise Unknown('quotient that is not exact')
        if t[0] == 'idx' and is_c(t[2]) and t[1][0] == 'call' and t[1][1] == ('ext', 'builtins.divmod'):
            x, n = t[1][2]
            return self.div(self.norm(x), n) if t[2][2] == 0 else self.mod(self.norm(x), n)
        raise Unknown('index ' + show(t)[:80])

    def exact(self, x, n):
        """(y - y % n) / n"""
        if x[0] == 'bin' and x[1] == '-':
            b = x[3]
            while b[0] == 'call' and b[1] == ('ext', 'builtins.int'):
                b = b[2][0]
            try:
                y, m = self.norm(x[2]), self.norm(b)
                if m == self.mod(y, n):
                    return self.div(y, n)
            except Unknown:
                pass
        return None

    def factors(self, n):
        if n[0] == 'bin' and n[1] == '*':
            return self.factors(n[2]) + self.factors(n[3])
        if n == C(1):
            return ()
        return (n,)

    def mod(self, d, n):
        if d[0] != 'd' or d[2] is not None:
            raise Unknown('remainder of a remainder')
        return ('d', d[1], n)

    def div(self, d, n):
        if d[0] != 'd':
            raise Unknown('quotient of a constant')
        f = self.factors(n)
        if d[2] is not None:
            m = list(self.factors(d[2]))
            for x in f:
                if x not in m:
                    raise Unknown('quotient of a remainder')
                m.remove(x)
            if len(m) != 1:
                raise Unknown('product modulus')
            return ('d', tuple(sorted(d[1] + f, key=repr)), m[0])
        return ('d', tuple(sorted(d[1] + f, key=repr)), None)


def flags(n):
    return list(itertools.product((TRUE, FALSE), repeat=n))


def axes(fl):
    ax, r = 0, []
    for i, c in enumerate(fl):
        if i and c == TRUE:
            ax += 1
        r.append(ax)
    return r


def build(prog, fl, lists=None):
    S = Scene(prog)
    W = S.obj('sweeps', 'Sweep')
    sw = [S.obj(f'sweep{i}', '_sweep') for i in range(len(fl))]
    ls = lists or [S.obj(f'list{i}') for i in range(len(fl))]
    for x, c, l in zip(sw, fl, ls):
        S.put(x, 'combinatorial', c)
        S.putp(x, 'sweepList', l) if False else S.put(x, '_sweepList', l)
    S.members(W, 'subSys', sw)

    def hook(I, func, args, kwargs, st, line):
        if isinstance(func, Func) and func.name == 'runSweep' and args and args[0] in sw:
            s = st.copy()
            a = args[1] if len(args) > 1 else dict(kwargs).get('ind')
            s.ev('swept', args[0], I.freeze(s, a), line)
            return [(s, NONE)]
        return None
    S.I.call_hook = hook
    return S, W, sw, ls


def walk(evs):
    for e in evs:
        yield e
        if e[0] == 'loop':
            for _, sub, _s in e[2]:
                yield from walk(sub)


def enumeration(prog, rep, tier):
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for fl in flags(n):
            nm = 'axes ' + ''.join('c' if x == TRUE else 's' for x in fl)
            with rep.guard(nm):
                enum1(prog, rep, fl, nm)


def enum1(prog, rep, fl, nm):
    W0 = prog.cls('Sweep')
    fp, fr = prog.lookup(W0, 'prepare')[1][1], prog.lookup(W0, 'runSweep')[1][1]
    S, W, sw, ls = build(prog, fl)
    ind = ('sym', 'ind')
    ax = axes(fl)
    k = max(ax) + 1
    lens = [('len', ls[ax.index(a)]) for a in range(k)]
    # sweeps on one axis have lists of the same length
    same = {('len', ls[i]): lens[ax[i]] for i in range(len(fl))}
    # what an earlier preparation left behind must not matter
    S.putp(W, 'inds', S.lst([('sym', 'stale0'), ('sym', 'stale1')]))
    S.putp(W, 'indMultip', ('sym', 'stale'))
    n = 0
    raised = None
    A = Algebra(real=lens)
    for s, v in S.call(W, 'prepare'):
        if isinstance(v, Raise):
            continue
        tot = S.get(W, 'indMultip', s)[0][1]
        try:
            got = A.sc(rename(S.I.freeze(s, tot), same))
            want = {(): 1}
            t = C(1)
            for l in lens:
                t = ('bin', '*', t, l)
            if got != A.sc(t):
                rep.bad('count:Sweep.prepare', where(fp), f'{nm}: the number of points is {show(S.I.freeze(s, tot))[:150]} instead of '
                        f'{show(t)[:150]}')
                return
        except Unknown as e:
            rep.undecided(nm + ':count', e)
        inds = S.get(W, 'inds', s)[0][1]
        items = S.I.known_items(inds, s)
        if items is None:
            rep.undecided(nm, 'axis lengths not followed')
            return
        for s2, ix in S.call(W, '_indicesForSweep', (ind,) + tuple(items), (), s):
            if isinstance(ix, Raise):
                continue
            for s3, v3 in S.call(W, 'runSweep', (ix,), (), s2):
                if isinstance(v3, Raise):
                    raised = v3
                    continue
                n += 1
                got = {}
                for e in walk(s3.events):
                    if e[0] == 'swept':
                        got.setdefault(e[1], []).append(e[2])
                D = Digits(ind)
                for i, x in enumerate(sw):
                    if len(got.get(x, [])) != 1:
                        rep.bad('apply:Sweep.runSweep', where(fr), f'{nm}: sweep {i} is applied {len(got.get(x, []))} times at a point')
                        return
                    try:
                        d = D.norm(rename(got[x][0], same))
                    except Unknown as e:
                        rep.undecided(nm, e)
                        return
                    a = ax[i]
                    below = tuple(sorted(lens[a + 1:], key=repr))
                    want = ('d', below, lens[a])
                    if d != want and not (a == 0 and d == ('d', below, None)):
                        rep.bad(f'axis:Sweep.runSweep:{len(fl)}', where(fr), f'{nm}: sweep {i} (axis {a}) is set to the value at '
                                f'{show(got[x][0])[:200]}')
                        return
    if n:
        rep.ok(nm, f'{n} paths, {k} axes')
        rep.count('paths', n)
    elif raised is not None and raised.exc in ('IndexError', 'KeyError'):
        rep.bad(f'apply:{len(fl)}', where(fr), f'{nm}: no point can be applied, every path ends in {raised.exc}')
    else:
        rep.undecided(nm, 'no path')


def rename(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(rename(x, m) if isinstance(x, tuple) else x for x in t)
    return t


# ---------------------------------------------------------------------------------- values
def values(prog, rep):
    cls = prog.cls('_sweep')
    f = prog.lookup(cls, '_defSweep')[1][1]
    for nsys in (1, 2, 3):
        for aux in (FALSE, TRUE):
            nm = f'value:{nsys}{"aux" if aux == TRUE else ""}'
            with rep.guard(nm):
                S = Scene(prog)
                x = S.obj('sweep', cls)
                key, k = ('sym', 'key'), ('sym', 'k')
                S.I.kinds[key] = frozenset('o')
                lst = S.obj('list')
                ss = [S.obj(f's{i}') for i in range(nsys)]
                S.members(x, 'subSys', ss)
                S.put(x, '_sweepList', lst)
                S.putp(x, 'sweepKey', key)
                S.put(x, '_aux', aux)
                S.put(x, '_updateBase__function', S.I.func_val(f))
                n = 0
                A = Algebra()
                for s, v in S.call(x, 'runSweep', (k,)):
                    if isinstance(v, Raise):
                        continue
                    n += 1
                    vals = []
                    if aux == FALSE:
                        vals = [S.I.sget(s, (y, ('dyn', key))) for y in ss]
                    else:
                        ad = S.get(x, 'auxDict', s)[0][1]
                        m = [e for e in walk(s.events) if e[0] == 'mut' and e[2] == '__setitem__' and e[3][0] == key]
                        vals = [S.I.freeze(s, m[-1][3][1])] if m else [None]
                    for i, val in enumerate(vals):
                        if val is None:
                            if aux == TRUE:
                                rep.undecided(nm, 'auxiliary dictionary not followed')
                            else:
                                rep.bad('value:unset', where(f), f'a sweep on {nsys} systems does not set the parameter of system {i}')
                            return
                        val = S.I.freeze(s, val)
                        if val[0] != 'idx' or val[1] != lst:
                            rep.undecided(nm, show(val)[:100])
                            return
                        if A.sc(val[2]) != A.sc(k):
                            rep.bad('value:index', where(f), f'a sweep run with index k sets the value at {show(val[2])}')
                            return
                if n:
                    rep.ok(nm, f'{n} paths')
                else:
                    rep.undecided(nm, 'no path')


# ---------------------------------------------------------------------------------- shape of the results
def shape(prog, rep, tier):
    R = prog.cls('qResults')
    f = prog.lookup(R, '_finalise')[1][1]
    for lens in ((1,), (2,), (2, 3), (3, 2), (1, 2), (2, 1, 2), (2, 2, 3)) + (((2, 3, 2, 2),) if tier == 'thorough' else ()):
        for field, prop in (('results', 'resultsDict'), ('states', 'states')):
            nm = f'shape:{field}:{lens}'
            with rep.guard(nm):
                shape1(prog, rep, R, f, lens, field, prop, nm)


def shape1(prog, rep, R, f, lens, field, prop, nm):
    S0, W, sw, ls = build(prog, (TRUE,) * len(lens))
    lists = [S0.lst([('sym', f'v{i}_{j}') for j in range(n)]) for i, n in enumerate(lens)]
    for x, l in zip(sw, lists):
        S0.put(x, '_sweepList', l)
    outs = [(s, v) for s, v in S0.call(W, 'prepare') if not isinstance(v, Raise)]
    if len(outs) != 1:
        rep.undecided(nm, 'prepare')
        return
    items = S0.I.known_items(S0.get(W, 'inds', outs[0][0])[0][1], outs[0][0])
    if items is None or not all(is_c(x) for x in items):
        rep.undecided(nm, 'axis lengths')
        return
    S = Scene(prog)
    q = S.obj('q', R)
    S.I.max_rec = 8
    tot = 1
    for n in lens:
        tot *= n
    pts = [('sym', f'r{i}') for i in range(tot)]
    for x in pts:
        S.I.kinds[x] = frozenset('o')
        S.st.facts[('I-', x)] = frozenset({('ext', 'builtins.list'), ('ext', 'builtins.tuple')})
    key = ('sym', 'key')
    lis = S.lst(pts)
    e = S.dct(())
    d = S.dct(((key, lis),))
    for fld in ('results', 'states'):
        S.put(q, '_qResBase__' + fld, d if fld == field else e)
    n = 0
    for s, v in S.call(q, '_finalise', (S.lst(items),)):
        if isinstance(v, Raise):
            continue
        got = S.get(q, prop, s)[0][1]
        got = S.I.freeze(s, got)
        if got[0] != 'D' or len(got) != 2:
            rep.undecided(nm, show(got)[:100])
            return
        n += 1
        idx = list(itertools.product(*[range(x) for x in lens]))
        for pos, ix in enumerate(idx):
            t = got[1][1]
            for i in ix:
                if t[0] not in ('L', 'tup') or len(t) <= i + 1:
                    t = None
                    break
                t = t[1 + i]
            if t != pts[pos] and t != ('idx', pts[pos], C(0)):
                if any(x[0] in ('call', 'attr', 'sym', 'idx') and x not in pts and not (x[0] == 'idx' and x[1] in pts and x[2] == C(0))
                       for x in subterms(got[1][1])):
                    rep.undecided(nm, show(got)[:100])
                elif t is not None and any(x in pts for x in subterms(t)) or t is None and got[1][1][0] == 'L':
                    rep.bad(f'shape:{field}:{len(lens)}', where(f), f'{field} of a sweep over axes of lengths {lens}: the entry at {ix} is '
                            f'{show(t)[:80] if t else "missing"} instead of that of point {pos}')
                else:
                    rep.undecided(nm, show(got)[:100])
                return
    if n:
        rep.ok(nm, f'{n} paths')
    else:
        rep.undecided(nm, 'no path')


# ---------------------------------------------------------------------------------- adding and removing
def members(prog, rep):
    W0 = prog.cls('Sweep')
    f = prog.lookup(W0, 'removeSweep')[1][1]
    # by system: s0 on a and b, s1 on a, s2 on c
    for tgt in ('a', 'b', 'c'):
        with rep.guard('remove:' + tgt):
            S = Scene(prog)
            W = S.obj('sweeps', W0)
            sys_ = {x: S.obj(x, 'genericQSys') for x in 'abc'}
            names = {x: ('attr', sys_[x], '_named__name') for x in 'abc'}
            sw = [S.obj(f'sweep{i}', '_sweep') for i in range(3)]
            swn = [('attr', x, '_named__name') for x in sw]
            on = ['ab', 'a', 'c']
            for x, o in zip(sw, on):
                S.members(x, 'subSys', [sys_[y] for y in o], [names[y] for y in o])
            S.members(W, 'subSys', sw, swn)
            allk = list(names.values()) + swn
            for i, p in enumerate(allk):
                for q in allk[i + 1:]:
                    S.st.facts[('eq', p, q)] = False
                    S.st.facts[('eq', q, p)] = False
            n = und = 0
            for s, v in S.call(W, 'removeSweep', (sys_[tgt],)):
                if isinstance(v, Raise):
                    continue
                left = content(S, s, W)
                if left is None:
                    und += 1
                    continue
                n += 1
                want = [x for x, o in zip(sw, on) if o.replace(tgt, '')]
                if left != want:
                    rep.bad('remove:sweeps', where(f), f'removing the sweeps of {tgt} from sweeps on {on} leaves '
                            f'{[show(x) for x in left]}')
                    return
                for x, o in zip(sw, on):
                    if x in want and content(S, s, x) != [sys_[y] for y in o.replace(tgt, '')]:
                        c = content(S, s, x)
                        rep.bad('remove:systems', where(f), f'removing the sweeps of {tgt}: the sweep on {o} continues on '
                                f'{[show(y) for y in c] if c else c}')
                        return
            if n:
                rep.ok('remove:' + tgt, f'{n} paths')
            else:
                rep.undecided('remove:' + tgt, 'no path followed')
    with rep.guard('remove:sweep'):
        S, W, sw, ls = build(prog, (TRUE, TRUE, TRUE))
        ns = [('attr', x, '_named__name') for x in sw]
        S.members(W, 'subSys', sw, ns)
        for i, p in enumerate(ns):
            for q in ns[i + 1:]:
                S.st.facts[('eq', p, q)] = S.st.facts[('eq', q, p)] = False
        n = 0
        for s, v in S.call(W, 'removeSweep', (sw[1],)):
            if isinstance(v, Raise):
                continue
            left = content(S, s, W)
            if left is None:
                continue
            n += 1
            if left != [sw[0], sw[2]]:
                rep.bad('remove:sweep', where(f), f'removing the second of three sweeps leaves {[show(x) for x in left]}')
                return
        rep.ok('remove:sweep', f'{n} paths') if n else rep.undecided('remove:sweep', 'no path followed')
    f = prog.lookup(W0, 'createSweep')[1][1]
    with rep.guard('create'):
        S, W, sw, ls = build(prog, (TRUE, TRUE))
        n = 0
        sy = S.obj('system', 'genericQSys')
        for s, v in S.call(W, 'createSweep', (), (('system', sy), ('sweepKey', C('frequency')), ('sweepList', ('sym', 'values')))):
            if isinstance(v, Raise):
                continue
            left = content(S, s, W)
            if left is None:
                continue
            n += 1
            if left != sw + [v]:
                rep.bad('create:order', where(f), f'creating a sweep after {[show(x) for x in sw]} gives {[show(x) for x in left]}')
                return
        rep.ok('create', f'{n} paths') if n else rep.undecided('create', 'no path followed')


def content(S, s, o):
    t = S.get(o, 'subSys', s)[0][1]
    c = S.I.sget(s, (t, '#c'))
    if c is None or c[0] != 'D':
        return None
    return [x[1] for x in c[1:]]


def check(prog, tier):
    rep = Report('C16', prog, tier, RULE,
                 'One to three sweeps with every combination of combinatorial marks and symbolic lengths were prepared and applied at a '
                 'symbolic point; results of up to three axes were shaped from their points.',
                 ['sweeps that share an axis have lists of the same length', 'one to three sweeps stand for any number',
                  'indices and lengths are non-negative and below 2**53'])
    for name, f in (('enumeration', enumeration), ('shape', shape)):
        with rep.guard(name):
            f(prog, rep, tier)
    with rep.guard('values'):
        values(prog, rep)
    with rep.guard('members'):
        members(prog, rep)
    return rep.finish(minimum=1)

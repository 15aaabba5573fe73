"""C17: products of step propagators and the evolution of states."""
from .common import *
from .c05 import same, T
from ..scen import Scene, equal_under
from ..algebra import Algebra, Unknown, mmulmat, pconst, show_mat

RULE = ('normal form of the product a protocol builds and of the state after a time step, for symbolic step propagators: later '
        'factors stand to the left and act on the state from the left')
ONE = {(): pconst(1)}


def leaf(t):
    return t if t[0] in ('U', 'state') else None


def word(ms):
    A = Algebra(leaf=leaf)
    r = ONE
    for m in ms:
        r = mmulmat(A.mat(m), r)
    return r


def steps_of(n):
    return [('sym', f'step{i}') for i in range(n)]


def ident_hook(I2, func, args, kwargs, st, line):
    """the identity operator: records its dimension"""
    if isinstance(func, Func) and func.name == 'identity' and func.module.name.endswith('operators'):
        s = st.copy()
        d = dict(zip(params_of(func), (I2.freeze(s, a) for a in args)))
        d.update({k: I2.freeze(s, a) for k, a in kwargs})
        s.ev('ident', d.get(params_of(func)[0]), line)
        return [(s, ('call', ('ext', 'scipy.sparse.identity'), (d.get(params_of(func)[0]),), ()))]
    return None


def judge(rep, name, key, fn, outs, I, A, want, st_ok=None):
    n, unk = 0, None
    for s, v in outs:
        if isinstance(v, Raise) or not A.plausible(s) or (st_ok is not None and not st_ok(s)):
            continue
        try:
            got = A.mat(I.freeze(s, v))
        except Unknown as e:
            unk = e
            continue
        n += 1
        w = want(s) if callable(want) else want
        if not same(got, w):
            rep.bad(key, where(fn), f'{name}: {show_mat(got)[:200]} instead of {show_mat(w)[:200]}')
            return
    rep.count('paths', n)
    if unk is not None:
        rep.undecided(name, unk)
    elif n:
        rep.ok(name, f'{n} paths: {show_mat(want)[:120]}' if not callable(want) else f'{n} paths')
    else:
        rep.undecided(name, 'no path returns')


# ---------------------------------------------------------------------------------- products of steps
def protocols(prog, rep, tier):
    Q = prog.cls('qProtocol')
    for cls in prog.classes.values():
        if not prog.is_sub(cls, Q):
            continue
        for n in (1, 2, 3) + ((4, 5) if tier == 'thorough' else ()):
            for op in (TRUE, FALSE):
                nm = f'{cls.name}:{n} steps:{"open" if op == TRUE else "closed"}'
                with rep.guard(nm):
                    protocol(prog, rep, cls, n, op, nm)


def protocol(prog, rep, cls, n, op, nm):
    S = Scene(prog)
    I = S.I
    p = S.obj('protocol', cls)
    ss = [S.obj(f'step{i}') for i in range(n)]
    S.members(p, 'subSys', ss)
    sup = S.obj('system')
    S.put(p, '_qBase__superSys', sup)
    ops, rates = ('sym', 'collapseOps'), ('sym', 'decayRates')

    def hook(I2, func, args, kwargs, st, line):
        r = ident_hook(I2, func, args, kwargs, st, line)
        if r is None and isinstance(func, Func) and func.name == '_isOpen':
            return [(st, op)]
        return r
    I.call_hook = hook
    A = Algebra(leaf=lambda t: ('U', t[1]) if t[0] == 'mcall' and t[2] == 'getUnitary' and t[1] in ss else leaf(t))
    want = word([('U', x) for x in ss])
    fn = prog.lookup(cls, '_defCreateUnitary')
    ent = prog.lookup(cls, '_createUnitary')
    f = fn[1][1] if fn else cls
    wh = fn[1][1] if fn else None
    outs = S.call(p, '_createUnitary', (ops, rates))
    if wh is None:
        wh = prog.lookup(cls, 'getUnitary')[1][1]
    judge(rep, nm, f'product:{short(wh.key)}:{n}', wh, outs, I, A, want)
    # arguments handed to the steps, dimension of the identity
    for s, v in outs:
        if isinstance(v, Raise) or not A.plausible(s):
            continue
        for e in walk(s.events):
            if e[0] == 'mcall' and e[2] == 'getUnitary' and e[1] in ss:
                given = dict(zip(('collapseOps', 'decayRates'), e[3]))
                given.update(dict(e[4]))
                if given.get('collapseOps') != ops or given.get('decayRates') != rates:
                    rep.bad(f'args:{short(wh.key)}', where(wh, e[5]), 'a step is not given the collapse operators and rates of the protocol')
                    return
    dims(prog, rep, S, p, sup, op, nm, wh)


def dims(prog, rep, S, p, sup, op, nm, wh):
    outs = S.call(p, '_identity', (), (('openSys', op),))
    A = Algebra(real=[('attr', sup, '_totalDim')])
    n = 0
    for s, v in outs:
        if isinstance(v, Raise):
            continue
        for e in walk(s.events):
            if e[0] == 'ident':
                try:
                    got = A.sc(e[1])
                except Unknown as x:
                    rep.undecided('identity:' + nm, x)
                    return
                d = A.sc(('attr', sup, '_totalDim'))
                want = A.sc(('bin', '**', ('attr', sup, '_totalDim'), C(2))) if op == TRUE else d
                n += 1
                if got != want and any(sup in subterms(x) for x in [e[1]]):
                    rep.bad(f'identity:{"open" if op == TRUE else "closed"}', where(wh, e[2]),
                            f'the identity a product starts from has dimension {show(e[1])} in '
                            f'{"an open" if op == TRUE else "a closed"} system')
                    return
    if n:
        rep.ok('identity:' + nm, f'{n} paths')


def walk(evs):
    for e in evs:
        yield e
        if e[0] == 'loop':
            for _, sub, _s in e[2]:
                yield from walk(sub)


# ---------------------------------------------------------------------------------- repeated evaluation
def repeated(prog, rep, tier):
    """time-dependent protocols: one factor per time point, each created after its values are set"""
    G = prog.cls('genericProtocol')
    done = set()
    for cls in prog.classes.values():
        if not prog.is_sub(cls, G):
            continue
        r = prog.lookup(cls, '_defGetUnitary')
        if r is None or r[1][1].key in done:
            continue
        done.add(r[1][1].key)
        for lens in ([], [1], [2], [3]) + (([2, 2], [4]) if tier == 'thorough' else ([2, 2],)):
            nm = f'{cls.name}:time points {lens}'
            with rep.guard(nm):
                repeat(prog, rep, cls, lens, nm)


def repeat(prog, rep, cls, lens, nm):
    S = Scene(prog)
    I = S.I
    p = S.obj('protocol', cls)
    sup = S.obj('system')
    S.put(p, '_qBase__superSys', sup)
    S.put(p, '_paramBoundBase__matrix', NONE)
    S.put(p, '_createUnitary', ('ext', 'user.create'))
    td = S.obj('td', 'Sweep')
    S.put(p, 'timeDependency', td)
    sw = [S.obj(f'sweep{i}') for i in range(len(lens))]
    for i, x in enumerate(sw):
        S.put(x, 'combinatorial', TRUE if i else FALSE)
    S.members(td, 'subSys', sw)
    S.putp(td, 'inds', S.lst([C(x) for x in reversed(lens)]))
    tot = 1
    for x in lens:
        tot *= x
    S.putp(td, 'indMultip', C(tot))

    def ext(I2, q, args, kwargs, st, line):
        if q == 'user.create':
            s = st.copy()
            k = sum(1 for e in s.events if e[0] == 'made')
            s.ev('made', k, line)
            return [(s, ('U', ('c', 'int', k)))]
        return None

    def hook(I2, func, args, kwargs, st, line):
        r = ident_hook(I2, func, args, kwargs, st, line)
        if r is None and isinstance(func, Func) and func.name == '_isOpen':
            return [(st, FALSE)]
        return r
    I.ext_hook, I.call_hook = ext, hook
    A = Algebra(leaf=leaf)
    fn = prog.lookup(cls, '_defGetUnitary')[1][1]
    outs = S.call(p, '_defGetUnitary', (NONE, NONE))
    want = word([('U', ('c', 'int', k)) for k in range(tot)])
    judge(rep, nm, f'repeat:{short(fn.key)}:{lens}', fn, outs, I, A, want)
    if not lens:
        return
    for s, v in outs:
        if isinstance(v, Raise) or not A.plausible(s):
            continue
        cur = {}
        seen = []
        for e in walk(s.events):
            if e[0] == 'mcall' and e[1] in sw and e[2] == 'runSweep':
                cur[e[1]] = e[3][0] if e[3] else None
            elif e[0] == 'made':
                seen.append(tuple(cur.get(x) for x in sw))
        points = []
        for k in range(tot):
            ix, r = [], k
            for l in reversed(lens):
                ix.insert(0, C(r % l))
                r //= l
            points.append(tuple(ix))
        if all(x is not None and is_c(x) for y in seen for x in y) or any(x is None for y in seen for x in y):
            if len(seen) == tot and all(None not in y for y in seen) and sorted(map(repr, seen)) == sorted(map(repr, points)) and \
                    (len(lens) > 1 or seen == points):
                rep.ok('points:' + nm, f'{tot} points in order')
            else:
                rep.bad(f'points:{short(fn.key)}', where(fn), f'the propagators of {lens} time points are created at '
                        f'{[[show(x) if x else "-" for x in y] for y in seen][:6]}')
            return


# ---------------------------------------------------------------------------------- evolution of the states
def evolution(prog, rep, tier):
    fn = prog.fn('quanguru.classes.modularSweep.timeEvolBase')
    cases = []
    for np_ in (1, 2, 3):
        cases.append((('closed',) * np_, None))
    cases += [(('open',), None), (('open', 'closed'), None), (('closed', 'open'), None)]
    for samples in ((1,), (2,), (1, 2), (2, 1), (1, 1, 1)) + (((3, 2), (2, 1, 2)) if tier == 'thorough' else ()):
        cases.append((('sampled',), samples))
    cases.append((('sampled', 'closed'), (2, 1)))
    for kinds, samples in cases:
        nm = f'step of {"+".join(kinds)}{"" if samples is None else samples}'
        with rep.guard(nm):
            evolve(prog, rep, fn, kinds, samples, nm)


def evolve(prog, rep, fn, kinds, samples, nm):
    S = Scene(prog)
    I = S.I
    sim = S.obj('simulation')
    ps = [S.obj(f'p{i}') for i in range(len(kinds))]
    sys_ = [S.obj(f's{i}') for i in range(len(kinds))]
    S.members(sim, 'subSys', sys_, keys=ps)
    I.types[sim] = prog.cls('Simulation')
    S.members(sim, 'subSys', sys_, keys=ps)
    wants, states = {}, {}
    for i, (p, k) in enumerate(zip(ps, kinds)):
        S.put(p, '_isOpen', TRUE if k == 'open' else FALSE)
        st0 = ('state', i)
        states[p] = st0
        S.put(p, 'currentState', st0)
        S.put(p, 'initialState', ('state', ('initial', i)))
        own = S.obj(f'p{i}simulation')
        S.put(p, 'simulation', own)
        S.put(own, 'samples', C(4))
        S.put(p, 'stepSample', TRUE if k == 'sampled' else FALSE)
        if k == 'sampled':
            steps = [S.obj(f'p{i}step{j}') for j in range(len(samples))]
            d = S.dct(tuple((('sym', 'k_' + x[1]), x) for x in steps))
            S.put(p, 'steps', d)
            for j, x in enumerate(steps):
                sm = S.obj(f'p{i}sim{j}')
                S.put(x, 'simulation', sm)
                S.put(sm, 'samples', C(samples[j]))
            wants[p] = [('U', x) for x, c in zip(steps, samples) for _ in range(c)]
        else:
            wants[p] = [('U', p)]

    def hook(I2, func, args, kwargs, st, line):
        if isinstance(func, Func) and func.name in ('mat2Vec', 'vec2Mat') and len(args) == 1:
            s = st.copy()
            return [(s, ('vec' if func.name == 'mat2Vec' else 'unvec', I2.freeze(s, args[0])))]
        return None
    I.call_hook = hook

    def lf(t):
        if t[0] == 'mcall' and t[2] == 'unitary':
            return ('U', t[1])
        if t[0] == 'unvec' and t[1][0] != 'vec':
            # unvec(M vec(x)) is M as a map applied to x
            return ('U', ('map', canon(t[1])))
        return leaf(t)

    def canon(t):
        if t[0] in ('vec', 'unvec') and t[1][0] == ('unvec' if t[0] == 'vec' else 'vec'):
            return canon(t[1][1])
        return t
    I.stack, I.loops = [], []
    outs = I.run(fn, [sim], (), S.st)
    n = 0
    A = Algebra(leaf=lf)
    for s, v in outs:
        if isinstance(v, Raise):
            continue
        n += 1
        for i, p in enumerate(ps):
            fin = I.sget(s, (p, 'currentState'))
            fin = I.freeze(s, fin) if fin is not None else None
            if fin is None:
                rep.undecided(nm, 'state not found')
                return
            if kinds[i] == 'open':
                ok = fin[0] == 'unvec' and fin[1] == ('bin', '@', ('mcall', p, 'unitary', (), ()), ('vec', states[p]))
                if not ok:
                    if fin == states[p] or any(x[0] == 'bin' and x[1] == '@' for x in terms(fin)):
                        rep.bad(f'state:{kinds[i]}:{len(ps)}', where(fn), f'{nm}: the state of protocol {i} becomes {show(fin)[:200]}')
                    else:
                        rep.undecided(nm, show(fin)[:150])
                    return
                continue
            try:
                got = A.mat(fin)
            except Unknown as e:
                rep.undecided(nm, e)
                return
            want = A.mat(states[p])
            for m in wants[p]:
                want = mmulmat(A.mat(m), want)
            if not same(got, want):
                rep.bad(f'state:{kinds[i]}:{len(ps)}', where(fn),
                        f'{nm}: the state of protocol {i} becomes {show_mat(got)[:200]} instead of {show_mat(want)[:200]}')
                return
            if kinds[i] == 'sampled':
                lst = I.sget(s, (p, 'sampleStates'))
                items = I.known_items(lst, s) if lst is not None else None
                if items is None:
                    rep.undecided(nm + ':samples', 'list of samples not followed')
                else:
                    w, ws = A.mat(states[p]), []
                    for m in wants[p]:
                        w = mmulmat(A.mat(m), w)
                        ws.append(w)
                    got = [A.mat(I.freeze(s, x)) for x in items]
                    if len(got) != len(ws) or not all(same(x, y) for x, y in zip(got, ws)):
                        rep.bad('samples', where(fn), f'{nm}: the samples are {[show_mat(x)[:80] for x in got]}')
                        return
    if n:
        rep.ok(nm, f'{n} paths')
        rep.count('paths', n)
    else:
        rep.undecided(nm, 'no path returns')


# ---------------------------------------------------------------------------------- ordered products of the toolbox
def products(prog, rep):
    L = T + 'linearAlgebra.'
    ms = [('sym', f'm{i}') for i in range(4)]
    for n in (1, 2, 3, 4):
        with rep.guard(f'_matMulInputs:{n}'):
            f = prog.fn(L + '_matMulInputs')
            I = Interp(prog)
            I.max_rec = 6
            for m in ms:
                I.kinds[m] = frozenset('o')
            A = Algebra(mats=ms)
            want = ONE
            for m in ms[:n]:
                want = mmulmat(want, A.mat(m))
            judge(rep, f'_matMulInputs({n})', 'product:_matMulInputs', f, I.run(f, ms[:n]), I, A, want)
        with rep.guard(f'_matPower:{n}'):
            f = prog.fn(L + '_matPower')
            I = Interp(prog)
            I.max_rec = 6
            A = Algebra(mats=ms)
            want = ONE
            for _ in range(n):
                want = mmulmat(want, A.mat(ms[0]))
            judge(rep, f'_matPower({n})', 'power:_matPower', f, I.run(f, [ms[0], C(n)]), I, A, want)
        with rep.guard(f'tensorProd:{n}'):
            f = prog.fn(L + 'tensorProd')
            I = Interp(prog)
            I.max_rec = 6
            for m in ms:
                I.kinds[m] = frozenset('o')
            A = Algebra(mats=ms)
            want = A.mat(ms[0])
            for m in ms[1:n]:
                want = A.kron(want, A.mat(m))

            def nonint(s):
                return not any(k[0] == 'I+' for k in s.facts)
            judge(rep, f'tensorProd({n})', 'product:tensorProd', f, I.run(f, ms[:n]), I, A, want, nonint)


def check(prog, tier):
    rep = Report('C17', prog, tier, RULE,
                 'The creation of protocol propagators was interpreted for one to three steps and time points, a time step for one to '
                 'three protocols with closed, open and sampled evolution; the resulting products were compared as normal forms.',
                 ['one to three steps stand for any number', 'matrix multiplication is associative'])
    for f in (protocols, repeated, evolution):
        with rep.guard(f.__name__):
            f(prog, rep, tier)
    with rep.guard('products'):
        products(prog, rep)
    return rep.finish(minimum=1)

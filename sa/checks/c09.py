"""C09: a repeated step uses the current propagator of its original, an adjoint step the adjoint of it."""
from .histories import *
from .c07 import ASSUME

RULE = ('product shapes of protocols with repeated and adjoint steps: after every history the copy equals what its original derives from '
        'now, and the adjoint copy its adjoint')

GATES = '''
def setup():
    q = Qubit(frequency=f1)
    G = SpinRotation(system=q, angle=a1, rotationAxis='x')
    H = G.hc
    K = copyStep(G)
    F = freeEvolution(system=q)
    B = F.hc
    P = qProtocol(system=q, steps=[G, F, G.hc, G, B])
    P.simTotalTime = T
    P.simStepSize = dt
    return q, G, H, K, F, B, P
def see_adjoint(e): return e[1].unitary(), e[2].unitary()
def see_adjointFirst(e):
    h = e[2].unitary()
    return e[1].unitary(), h
def see_adjointDirect(e):
    h = e[2].getUnitary()
    return e[1].unitary(), h
def see_adjointAfterDirect(e):
    g = e[1].getUnitary()
    return g, e[2].unitary()
def see_adjointTwice(e):
    e[2].unitary()
    e[1].getUnitary()
    e[2].getUnitary()
    return e[1].unitary(), e[2].unitary()
def see_adjointFree(e):
    h = e[5].unitary()
    return e[4].unitary(), h
def see_adjointFreeDirect(e):
    f = e[4].getUnitary()
    return f, e[5].getUnitary()
def see_copy(e): return e[1].unitary(), e[3].unitary()
def see_copyFirst(e):
    k = e[3].getUnitary()
    return e[1].unitary(), k
def see_protocol(e):
    p = e[6].unitary()
    return e[1].unitary(), e[4].unitary(), p
def see_protocolLast(e):
    g = e[1].unitary()
    f = e[4].unitary()
    return g, f, e[6].unitary()
def see_protocolDirect(e):
    p = e[6].getUnitary()
    return e[1].unitary(), e[4].unitary(), p
def change_angle(e): e[1].angle = a2
def change_phase(e): e[1].phase = a2
def change_axis(e): e[1].rotationAxis = 'y'
def change_frequency(e): e[0].frequency = f2
def change_ratio(e): e[4].ratio = r2
def change_stepSize(e): e[6].simStepSize = dt2
def change_ownStepSize(e): e[4].simStepSize = dt2
def change_systemStepSize(e): e[0].simStepSize = dt2
def change_samples(e): e[6].simSamples = n2
def change_update(e): e[4].createUpdate(system=e[0], key='frequency', value=f3)
def change_term(e): e[0].createTerm(operator=Jx, frequency=g1)
def change_twice(e):
    e[1].angle = a2
    e[6].unitary()
    e[1].angle = a3
def change_readOriginal(e):
    e[1].angle = a2
    e[1].unitary()
def change_readOriginalDirect(e):
    e[1].angle = a2
    e[1].getUnitary()
def change_readAdjoint(e):
    e[1].angle = a2
    e[2].unitary()
    e[4].ratio = r2
    e[5].unitary()
'''

NESTED = '''
def setup():
    q = Qubit(frequency=f1)
    p = Qubit(frequency=f2)
    s = QuantumSystem(subSys=[q, p])
    F = freeEvolution(system=s)
    G = xGate(system=q, angle=a1, implementation='instant')
    R = qProtocol(system=s, steps=[F, G])
    H = R.hc
    M = qProtocol(system=s, steps=[R, G.hc])
    N = qProtocol(system=s, steps=[H, F, R])
    M.simTotalTime = T
    M.simStepSize = dt
    return q, p, s, F, G, R, H, M, N
def see_original(e):
    r = e[5].unitary()
    return e[3].unitary(), e[4].unitary(), r
def see_adjoint(e): return e[5].unitary(), e[6].unitary()
def see_adjointFirst(e):
    h = e[6].unitary()
    return e[5].unitary(), h
def see_adjointDirect(e):
    r = e[5].getUnitary()
    return r, e[6].getUnitary()
def see_nested(e):
    m = e[7].unitary()
    return e[5].unitary(), e[4].unitary(), m
def see_nestedReverse(e):
    n = e[8].unitary()
    return e[5].unitary(), e[3].unitary(), n
def see_nestedReverseDirect(e):
    n = e[8].getUnitary()
    return e[5].unitary(), e[3].unitary(), n
def change_angle(e): e[4].angle = a2
def change_implementation(e): e[4].implementation = None
def change_frequency(e): e[1].frequency = f3
def change_coupling(e): e[2].createTerm(qSystem=[e[0], e[1]], operator=[sigmap, sigmam], frequency=g1)
def change_stepSize(e): e[7].simStepSize = dt2
def change_innerStepSize(e): e[5].simStepSize = dt2
def change_addInner(e): e[5].addStep(SpinRotation(system=e[1], angle=a3, rotationAxis='z'))
def change_removeInner(e): e[5].removeSubSys(e[4])
def change_readInner(e):
    e[4].angle = a2
    e[5].unitary()
def change_readOuter(e):
    e[4].angle = a2
    e[7].unitary()
    e[3].ratio = r2
def change_readGate(e):
    e[4].angle = a2
    e[4].getUnitary()
    e[3].ratio = r2
    e[3].getUnitary()
'''

PROGRAMS = dict(gates=GATES, nested=NESTED)


def plain(s):
    """without identity factors"""
    if s[0] == 'hc':
        return adj(plain(s[1]))
    if s[0] == 'prod':
        fs = []
        for x in map(plain, s[1:]):
            fs.extend(x[1:] if x[0] == 'prod' else [x])
        fs = [x for x in fs if x[0] != 'id']
        return fs[0] if len(fs) == 1 else ('prod',) + tuple(fs) if fs else ('id',)
    return s


def adj(s):
    return s if s[0] == 'id' else s[1] if s[0] == 'hc' else ('hc', s)


def times(*fs):
    """product of shapes, last factor applied first"""
    out = []
    for f in fs:
        out.extend(f[1:] if f[0] == 'prod' else [f])
    return plain(('prod',) + tuple(out))


def expected(scen, o, v):
    """what the last value has to be, from the values of the originals"""
    if o.startswith('see_adjoint'):
        return adj(v[0])
    if o.startswith('see_copy'):
        return v[0]
    if o.startswith('see_protocol'):
        g, f = v[0], v[1]
        return times(adj(f), g, adj(g), f, g)
    if o.startswith('see_nestedReverse'):
        r, f = v[0], v[1]
        return times(r, f, adj(r))
    if o.startswith('see_nested'):
        return times(adj(v[1]), v[0])
    return None


def relations(rep, S, m):
    base = [('nothing evaluated before', S.s0), ('everything evaluated before', S.filled)]
    for how, st in base:
        try:
            s, _ = S.do(st, m) if m else (st, None)
        except Unsupported as e:
            rep.undecided(f'{S.name}:{m or "start"}', e)
            continue
        for o in S.obs:
            key = f'{S.name}:{m[7:] if m else "start"}:{o[4:]} relation'
            try:
                _, v = S.see(s, o)
            except Unsupported as e:
                rep.undecided(key, e)
                continue
            vals = tuple(map(plain, v[1:]))
            want = expected(S.name, o, vals[:-1])
            if want is None:
                continue
            want = plain(want)
            rep.count('relations')
            if vals[-1] != want:
                rep.bad(key, blame(S.c.p, S, m) if m else where(S.c.p.funcs['quanguru.classes.QPro.copyStep.getUnitary']),
                        f'in {S.name}, with {how}, {o[4:]}: the step gives {text(vals[-1])[:250]}, but its original makes it '
                        f'{text(want)[:250]}')
            else:
                rep.ok(key, how)


def check(prog, tier):
    rep = Report('C09', prog, tier, RULE, 'Repeated and adjoint steps of gates, free evolutions and protocols, inside protocols and on '
                 'their own, in client programs over the real classes read by abstract interpretation: the value of the copy is compared '
                 'with the one of its original in the same state, for every change, reading order and way of asking.', ASSUME)
    Ss = load(prog, rep, PROGRAMS)
    parallel(rep, [(relations, (S, m)) for S in Ss for m in [None] + S.muts]
             + [(judge, (S, m, tier == 'thorough')) for S in Ss for m in S.muts]
             + [(judge_pairs, (S, m)) for S in Ss for m in S.muts if tier == 'thorough'])
    return rep.finish(60)

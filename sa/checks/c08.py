"""C08: a change is propagated to every object that depends on the changed one."""
from .histories import *
from .c07 import ASSUME

RULE = ('dependency analysis of cached matrices in composed objects: a change in any component must reach every Hamiltonian and propagator '
        'derived from it, however the objects were composed and whatever was evaluated before')

NESTED = '''
def setup():
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = QuantumSystem(subSys=[c, q])
    t = s.createTerm(qSystem=[c, q], operator=[create, sigmam], frequency=g1)
    p = Spin(frequency=f3, jValue=1)
    S = QuantumSystem()
    S.addSubSys(s)
    S.addSubSys(p)
    u = S.createTerm(qSystem=[c, p], operator=[number, Jx], frequency=g2)
    T1 = QuantumSystem(subSys=S)
    Pc = freeEvolution(system=c)
    Ps = freeEvolution(system=s)
    PS = freeEvolution(system=S)
    S.simTotalTime = T
    S.simStepSize = dt
    s.simTotalTime = Ts
    s.simStepSize = dts
    c.simTotalTime = Tc
    c.simStepSize = dtc
    return c, q, s, t, p, S, u, Pc, Ps, PS, T1
def see_cavity(e): return e[0].totalHamiltonian
def see_pair(e): return e[2].totalHamiltonian
def see_whole(e): return e[5].totalHamiltonian
def see_top(e): return e[10].totalHamiltonian
def see_cavityPropagator(e): return e[7].unitary()
def see_pairPropagator(e): return e[8].unitary()
def see_wholePropagator(e): return e[9].unitary()
def see_wholeOwn(e): return e[5].unitary()
def change_cavityFrequency(e): e[0].frequency = f4
def change_qubitFrequency(e): e[1].frequency = f4
def change_qubitOperator(e): e[1].operator = Jx
def change_cavityDimension(e): e[0].dimension = d2
def change_pairCoupling(e): e[3].frequency = g4
def change_pairOperators(e): e[3].operator = [destroy, sigmap]
def change_wholeCoupling(e): e[6].frequency = g4
def change_spinSize(e): e[4].jValue = 2
def change_cavityTerm(e): e[0].createTerm(operator=create, frequency=g5)
def change_qubitTermFromTop(e): e[5].createTerm(operator=Jy, frequency=g5, qSystem=e[1])
def change_pairTerm(e): e[2].createTerm(operator=[number, sigmaz], qSystem=[e[0], e[1]], frequency=g5)
def change_addTerm(e): e[0].addTerms(QTerm(qSystem=e[0], operator=create, frequency=g5, superSys=e[0]))
def change_addToPair(e): e[2].addSubSys(Qubit(frequency=f5))
def change_addToWhole(e): e[5].addSubSys(Qubit(frequency=f5))
def change_addToWholeAndChange(e):
    r = Qubit(frequency=f5)
    e[5] + r
    r.frequency = f6
def change_removeQubit(e): e[2].removeSubSys(e[1])
def change_removeQubitFromTop(e): e[5] - e[1]
def change_removeSpin(e): e[5].removeSubSys(e[4])
def change_removePair(e): e[5].removeSubSys(e[2])
def change_removeCoupling(e): e[2].removeTerm(e[3])
def change_removeCouplingFromTop(e): e[5].removeTerm(e[3])
def change_removeWholeCouplingBelow(e): e[2].removeTerm(e[6])
def change_resetSubSys(e): e[2].resetSubSys()
def change_resetTerms(e): e[2].resetTerms()
def change_stepOfWhole(e): e[5].simStepSize = dt2
def change_stepOfPair(e): e[2].simStepSize = dt2
'''

LATE = '''
def setup():
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    p = Qubit(frequency=f3)
    s = QuantumSystem()
    s.addSubSys(c)
    a = Qubit(frequency=f5)
    P = freeEvolution(system=s)
    s.simTotalTime = T
    s.simStepSize = dt
    return c, q, p, s, a, P
def see_cavity(e): return e[0].totalHamiltonian
def see_qubit(e): return e[1].totalHamiltonian
def see_composite(e): return e[3].totalHamiltonian
def see_propagator(e): return e[5].unitary()
def see_own(e): return e[3].unitary()
def change_addSubSys(e): e[3].addSubSys(e[1])
def change_add(e): e[3] + e[1]
def change_addTwo(e): e[3].addSubSys([e[1], e[2]])
def change_subSys(e): e[3].subSys = e[1]
def change_createSubSys(e): e[3].createSubSys(Qubit, frequency=f6)
def change_addThenChange(e):
    e[3].addSubSys(e[1])
    e[3].totalHamiltonian
    e[1].frequency = f4
def change_addThenCouple(e):
    e[3].addSubSys(e[1])
    e[3].totalHamiltonian
    t = e[3].createTerm(qSystem=[e[0], e[1]], operator=[create, sigmam], frequency=g1)
    e[5].unitary()
    t.frequency = g2
def change_coupleThenGrow(e):
    e[3].addSubSys(e[1])
    t = e[3].createTerm(qSystem=[e[0], e[1]], operator=[create, sigmam], frequency=g1)
    e[3].totalHamiltonian
    e[3].addSubSys(e[2])
def change_nest(e):
    n = QuantumSystem(subSys=[e[1], e[2]])
    e[3].addSubSys(n)
    e[5].unitary()
    e[2].frequency = f4
def change_nestThenGrow(e):
    n = QuantumSystem(subSys=[e[1]])
    e[3].addSubSys(n)
    e[5].unitary()
    n.addSubSys(e[2])
def change_nestThenResize(e):
    n = QuantumSystem(subSys=[e[1]])
    e[3].addSubSys(n)
    e[5].unitary()
    e[0].dimension = d2
def change_addRemove(e):
    e[3].addSubSys(e[1])
    e[5].unitary()
    e[3].removeSubSys(e[1])
def change_replaceTerms(e):
    e[3].addSubSys(e[1])
    e[3].totalHamiltonian
    e[1].terms = QTerm(qSystem=e[1], operator=Jx, frequency=g1)
def change_createTermThen(e):
    t = e[0].createTerm(operator=create, frequency=g1)
    e[5].unitary()
    t.order = n2
def change_addTermsThen(e):
    t = QTerm(qSystem=e[0], operator=create, frequency=g1)
    e[0].addTerms(t)
    e[5].unitary()
    t.frequency = g2
def change_addDetached(e):
    t = QTerm(qSystem=e[0], operator=create, frequency=g1)
    e[5].unitary()
    e[0].addTerms(t)
def change_addDetachedLater(e):
    t = QTerm(qSystem=e[0], operator=create, frequency=g1)
    e[3].totalHamiltonian
    e[0].totalHamiltonian
    e[0].unitary()
    e[0].addTerms(t)
    e[0].totalHamiltonian
    t.frequency = g2
def change_addOtherSuper(e):
    e[3].addSubSys(e[1])
    o = QuantumSystem(subSys=e[4])
    t = QTerm(superSys=o, qSystem=[e[0], e[1]], operator=[create, sigmam], frequency=g1)
    e[3].addTerms(t, superSys=o)
    e[5].unitary()
    t.frequency = g2
def change_termOnCompositeThen(e):
    e[3].addSubSys(e[1])
    t = e[3].createTerm(qSystem=e[1], operator=sigmax, frequency=g1)
    e[5].unitary()
    t.frequency = g2
'''

PROTOCOL = '''
def setup():
    q = Qubit(frequency=f1)
    p = Qubit(frequency=f2)
    s = QuantumSystem(subSys=[q, p])
    F = freeEvolution(system=s)
    G = SpinRotation(system=q, angle=a1, rotationAxis='x')
    H = xGate(system=[q, p], angle=a2)
    R = qProtocol(system=s)
    R.addStep(F, G)
    M = qProtocol(system=s)
    M.addStep(R, H, F, G.hc)
    u = F.createUpdate(system=q, key='frequency', value=f3)
    M.simTotalTime = T
    M.simStepSize = dt
    return q, p, s, F, G, H, R, M, u
def see_free(e): return e[3].unitary()
def see_rotation(e): return e[4].unitary()
def see_inner(e): return e[6].unitary()
def see_outer(e): return e[7].unitary()
def see_innerDirect(e): return e[6].getUnitary()
def see_outerDirect(e): return e[7].getUnitary()
def see_hamiltonian(e): return e[2].totalHamiltonian
def change_frequency(e): e[0].frequency = f4
def change_otherFrequency(e): e[1].frequency = f4
def change_term(e): e[1].createTerm(operator=Jx, frequency=g1)
def change_angle(e): e[4].angle = a3
def change_angleOfOuter(e): e[5].angle = a3
def change_implementation(e): e[5].implementation = 'instant'
def change_ratio(e): e[3].ratio = r2
def change_value(e): e[8].value = f5
def change_newUpdate(e): e[3].createUpdate(system=e[1], key='frequency', value=f5)
def change_stepSize(e): e[7].simStepSize = dt2
def change_innerStepSize(e): e[6].simStepSize = dt2
def change_freeStepSize(e): e[3].simStepSize = dt2
def change_systemStepSize(e): e[2].simStepSize = dt2
def change_totalTime(e): e[7].simTotalTime = T2
def change_stepCount(e): e[7].simStepCount = n2
def change_samples(e): e[7].simSamples = n2
def change_addStep(e): e[7].addStep(SpinRotation(system=e[1], angle=a4, rotationAxis='z'))
def change_addInnerStep(e): e[6].addStep(SpinRotation(system=e[1], angle=a4, rotationAxis='z'))
def change_steps(e): e[6].steps = [SpinRotation(system=e[1], angle=a4, rotationAxis='z')]
def change_addSubSys(e): e[6].addSubSys(SpinRotation(system=e[1], angle=a4, rotationAxis='z'))
def change_removeStep(e): e[6].removeSubSys(e[4])
def change_resetSteps(e): e[6].resetSubSys()
def change_addStepThen(e):
    g = SpinRotation(system=e[1], angle=a4, rotationAxis='z')
    e[6].addStep(g)
    e[7].unitary()
    g.angle = a5
def change_addRepeatThen(e):
    e[6].addStep(e[4].hc)
    e[7].unitary()
    e[4].angle = a5
def change_addEvaluatedStep(e):
    g = SpinRotation(system=e[1], angle=a4, rotationAxis='z')
    g.unitary()
    e[6].addStep(g)
def change_gateSystem(e): e[4].system = e[1]
def change_dimension(e): e[2].addSubSys(Cavity(frequency=f6, dimension=d1))
def change_twice(e):
    e[4].angle = a3
    e[6].unitary()
    e[4].angle = a4
def change_sharedReadThere(e):
    e[3].ratio = r2
    e[3].unitary()
'''

SHARED = '''
def setup():
    q = Qubit(frequency=f1)
    F = freeEvolution(system=q)
    G = SpinRotation(system=q, angle=a1, rotationAxis='x')
    A = qProtocol(system=q, steps=[F, G])
    B = qProtocol(system=q, steps=[G, F])
    N = qProtocol(system=q, steps=[A, B])
    D = qProtocol(system=q, steps=[A.hc])
    A.simTotalTime = T
    A.simStepSize = dt
    return q, F, G, A, B, N, D
def see_free(e): return e[1].unitary()
def see_gate(e): return e[2].unitary()
def see_first(e): return e[3].unitary()
def see_second(e): return e[4].unitary()
def see_both(e): return e[5].unitary()
def see_reverse(e): return e[6].unitary()
def change_angle(e): e[2].angle = a2
def change_frequency(e): e[0].frequency = f2
def change_ratio(e): e[1].ratio = r2
def change_stepSize(e): e[3].simStepSize = dt2
def change_phase(e): e[2].phase = a3
def change_update(e): e[1].createUpdate(system=e[0], key='frequency', value=f3)
def change_removeFromFirst(e): e[3].removeSubSys(e[2])
def change_append(e): e[3].addStep(xGate(system=e[0], angle=a4))
def change_fixedThenAngle(e):
    e[2].angle = a2
    e[4].getUnitary()
'''

BOUND = '''
def setup():
    q = Qubit(frequency=f1)
    p = Qubit(frequency=f2)
    s = QuantumSystem(subSys=[q, p])
    F = freeEvolution(system=s)
    G = freeEvolution(system=s)
    R = qProtocol(system=s, steps=[G])
    S = Simulation()
    S.addProtocol(protocol=F, system=s)
    S.addProtocol(protocol=R)
    S.totalTime = T
    S.stepSize = dt
    return q, p, s, F, G, R, S
def see_free(e): return e[3].unitary()
def see_step(e): return e[4].unitary()
def see_protocol(e): return e[5].unitary()
def see_own(e): return e[2].unitary()
def change_stepSize(e): e[6].stepSize = dt2
def change_totalTime(e): e[6].totalTime = T2
def change_stepCount(e): e[6].stepCount = n2
def change_samples(e): e[6].samples = n2
def change_simStep(e): e[2].simStepSize = dt2
def change_protocolStep(e): e[5].simStepSize = dt2
def change_stepOfStep(e): e[4].simStepSize = dt2
def change_newSimulation(e):
    X = Simulation()
    X.totalTime = T3
    X.stepSize = dt3
    X.addProtocol(protocol=e[3])
def change_newSimulationThen(e):
    X = Simulation()
    X.addProtocol(protocol=e[3])
    X.totalTime = T3
    X.stepSize = dt3
    e[3].unitary()
    X.stepSize = dt4
def change_newProtocolThen(e):
    X = qProtocol(system=e[2], steps=[SpinRotation(system=e[0], angle=a1, rotationAxis='x')])
    e[6].addProtocol(protocol=X)
    X.unitary()
    e[6].stepSize = dt4
def change_stepJoins(e):
    X = freeEvolution(system=e[2])
    X.simStepSize = dt4
    X.unitary()
    e[5].addStep(X)
def change_evaluatedStepJoins(e):
    e[5].simStepSize = dt5
    e[5].unitary()
    X = freeEvolution(system=e[2])
    X.unitary()
    e[5].addStep(X)
def change_evaluatedProtocolJoins(e):
    e[5].simStepSize = dt5
    X = qProtocol(system=e[2], steps=[freeEvolution(system=e[2])])
    X.unitary()
    e[5].addStep(X)
def change_addSystem(e): e[6].addSubSys(Qubit(frequency=f6))
'''

MUST = dict(
    nested={'cavityFrequency': ['cavity', 'pair', 'whole', 'top', 'cavityPropagator', 'pairPropagator', 'wholePropagator', 'wholeOwn'],
            'qubitFrequency': ['pair', 'whole', 'top', 'pairPropagator', 'wholePropagator', 'wholeOwn'],
            'cavityDimension': ['cavity', 'pair', 'whole', 'top', 'cavityPropagator', 'pairPropagator', 'wholePropagator', 'wholeOwn'],
            'pairCoupling': ['pair', 'whole', 'top', 'pairPropagator', 'wholePropagator', 'wholeOwn'],
            'wholeCoupling': ['whole', 'top', 'wholePropagator', 'wholeOwn'],
            'spinSize': ['whole', 'top', 'wholePropagator', 'wholeOwn'],
            'cavityTerm': ['cavity', 'pair', 'whole', 'top', 'cavityPropagator', 'pairPropagator', 'wholePropagator', 'wholeOwn'],
            'addTerm': ['cavity', 'pair', 'whole', 'top', 'cavityPropagator'], 'addToWhole': ['whole', 'top', 'wholePropagator'],
            'addToPair': ['pair', 'whole', 'top', 'wholePropagator'], 'removeQubit': ['pair', 'whole', 'top', 'wholePropagator'],
            'removePair': ['whole', 'top', 'wholePropagator'], 'removeCoupling': ['pair', 'whole', 'top', 'wholePropagator'],
            'stepOfWhole': ['wholePropagator', 'wholeOwn'], 'stepOfPair': ['pairPropagator']},
    late={'addSubSys': ['composite', 'propagator', 'own'], 'createTermThen': ['cavity', 'composite', 'propagator', 'own'],
          'addDetached': ['cavity', 'composite', 'propagator', 'own'], 'addOtherSuper': ['composite', 'propagator', 'own']},
    protocol={'frequency': ['hamiltonian'], 'otherFrequency': ['free', 'inner', 'outer', 'innerDirect', 'outerDirect', 'hamiltonian'],
              'angle': ['rotation', 'inner', 'outer', 'innerDirect', 'outerDirect'], 'angleOfOuter': ['outer', 'outerDirect'],
              'ratio': ['free', 'inner', 'outer'], 'value': ['free', 'inner', 'outer'], 'newUpdate': ['free', 'inner', 'outer'],
              'stepSize': ['free', 'inner', 'outer'], 'samples': ['free', 'inner', 'outer'], 'addStep': ['outer', 'outerDirect'],
              'addInnerStep': ['inner', 'outer'], 'removeStep': ['inner', 'outer'], 'steps': ['inner', 'outer'],
              'addSubSys': ['inner', 'outer'], 'resetSteps': ['inner', 'outer']},
    shared={'angle': ['gate', 'first', 'second', 'both', 'reverse'], 'ratio': ['free', 'first', 'second', 'both', 'reverse'],
            'frequency': ['free', 'first', 'second', 'both', 'reverse'], 'stepSize': ['free', 'first', 'second', 'both', 'reverse']},
    bound={'stepSize': ['free', 'step', 'protocol'], 'samples': ['free', 'step', 'protocol'], 'protocolStep': ['step', 'protocol'],
           'simStep': ['own']})

PROGRAMS = dict(nested=NESTED, late=LATE, protocol=PROTOCOL, shared=SHARED, bound=BOUND)


def check(prog, tier):
    rep = Report('C08', prog, tier, RULE, 'Nested composites, couplings across levels, protocols of protocols, steps shared between protocols, '
                 'gates, updates and bound simulations are built in client programs over the real classes, before and after '
                 'evaluation, read by abstract interpretation; every Hamiltonian and propagator after a change anywhere is compared, by what it '
                 'derives from, with the one of a history in which nothing was evaluated before.', ASSUME)
    run(prog, rep, PROGRAMS, tier, MUST)
    return rep.finish(100)

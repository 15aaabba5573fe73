"""C07: after any parameter change the next Hamiltonian or propagator is computed from the current values."""
from .histories import *

RULE = ('dependency analysis of cached matrices: what a Hamiltonian or propagator derives from after a change must not depend on whether, '
        'when and in which order it or others were evaluated before')

QUBIT = '''
def setup():
    q = Qubit(frequency=f1)
    P = freeEvolution(system=q)
    q.simTotalTime = T
    q.simStepSize = dt
    return q, P
def see_hamiltonian(e): return e[0].totalHamiltonian
def see_propagator(e): return e[1].unitary()
def see_own(e): return e[0].unitary()
def change_frequency(e): e[0].frequency = f2
def change_operator(e): e[0].operator = Jx
def change_operatorAndFrequency(e):
    e[0].operator = Jy
    e[0].frequency = f2
def change_ratio(e): e[1].ratio = r2
def change_simStepSize(e): e[0].simStepSize = dt2
def change_protocolStepSize(e): e[1].simStepSize = dt2
def change_simTotalTime(e): e[1].simTotalTime = T2
def change_simStepCount(e): e[1].simStepCount = n2
def change_systemStepCount(e): e[0].simStepCount = n2
def change_stepCountThenTotalTime(e):
    e[0].simStepCount = n2
    e[0].simTotalTime = T2
    e[0].simStepCount = n2
def change_stepCountSame(e): e[0].simStepCount = e[0].stepCount
def change_resetTermsOnly(e): e[0].resetTerms()
def change_simSamples(e): e[0].simSamples = n2
def change_protocolSamples(e): e[1].simSamples = n2
def change_createTerm(e): e[0].createTerm(operator=Jy, frequency=g)
def change_createUpdate(e): e[1].createUpdate(system=e[0], key='frequency', value=f3)
def change_system(e):
    p = Qubit(frequency=f3)
    e[1].system = p
def change_resetTerms(e): e[0].terms = QTerm(qSystem=e[0], operator=Jx, frequency=g)
'''

TERMS = '''
def setup():
    q = Spin(jValue=1, frequency=f1)
    t = q.createTerm(operator=Jx, frequency=g1)
    P = freeEvolution(system=q)
    u = P.createUpdate(system=q, key='frequency', value=f5)
    q.simTotalTime = T
    q.simStepSize = dt
    return q, t, P, u
def see_hamiltonian(e): return e[0].totalHamiltonian
def see_termHamiltonian(e): return e[1].totalHamiltonian
def see_propagator(e): return e[2].unitary()
def see_own(e): return e[0].unitary()
def change_frequency(e): e[1].frequency = g2
def change_operator(e): e[1].operator = Jy
def change_order(e): e[1].order = n2
def change_firstOrder(e): e[0].order = n2
def change_firstFrequency(e): e[0].frequency = f2
def change_dimension(e): e[0].dimension = d2
def change_jValue(e): e[0].jValue = j2
def change_removeTerm(e): e[0].removeTerm(e[1])
def change_resetTerms(e):
    e[0].resetTerms()
    e[0].operator = Jz
    e[0].frequency = f3
def change_qSystem(e):
    e[1].qSystem = e[0]
    e[1].operator = Jy
def change_reassignSystem(e):
    e[1].qSystem = e[0]
    e[1].operator = Jx
def change_reassignOnly(e): e[1].qSystem = e[0]
def change_value(e): e[3].value = f6
def change_addUpdate(e): e[2].addUpdate(Update(system=e[0], key='frequency', value=f7))
def change_termFrequencyAndRatio(e):
    e[1].frequency = g2
    e[2].ratio = r2
'''

CAVITY = '''
def setup():
    c = Cavity(frequency=f1, dimension=d1)
    c.createTerm(operator=create, frequency=g1)
    P = freeEvolution(system=c, ratio=r1)
    P.simTotalTime = T
    P.simStepSize = dt
    return c, P
def see_hamiltonian(e): return e[0].totalHamiltonian
def see_propagator(e): return e[1].unitary()
def change_dimension(e): e[0].dimension = d2
def change_frequency(e): e[0].frequency = f2
def change_operator(e): e[0].operator = destroy
def change_ratio(e): e[1].ratio = r2
def change_simStepSize(e): e[1].simStepSize = dt2
def change_dimensionTwice(e):
    e[0].dimension = d2
    e[0].dimension = d3
def change_frequencyThere(e):
    e[0].frequency = f2
    e[0].totalHamiltonian
    e[0].frequency = f3
'''

COUPLING = '''
def setup():
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = c + q
    s = QuantumSystem(subSys=[c, q]) if s is None else s
    t = s.createTerm(qSystem=[c, q], operator=[create, sigmam], frequency=g1)
    P = freeEvolution(system=s)
    P.simTotalTime = T
    P.simStepSize = dt
    return c, q, s, t, P
def see_hamiltonian(e): return e[2].totalHamiltonian
def see_termHamiltonian(e): return e[3].totalHamiltonian
def see_propagator(e): return e[4].unitary()
def change_frequency(e): e[3].frequency = g2
def change_operator(e): e[3].operator = [destroy, sigmap]
def change_order(e): e[3].order = [n2, 1]
def change_operatorAndOrder(e):
    e[3].operator = [number, sigmaz]
    e[3].order = [n2, n3]
def change_qSystem(e):
    e[3].qSystem = [e[1], e[0]]
    e[3].operator = [sigmam, create]
def change_removeTerm(e): e[2].removeTerm(e[3])
'''

GATE = '''
def setup():
    q = Qubit(frequency=f1)
    p = Qubit(frequency=f2)
    s = q + p
    G = SpinRotation(system=q, angle=a1, rotationAxis='x')
    X = xGate(system=q, angle=a4)
    Y = xGate(system=p, angle=a5, implementation='instant')
    return q, p, s, G, X, Y
def see_rotation(e): return e[3].unitary()
def see_xgate(e): return e[4].unitary()
def see_instant(e): return e[5].unitary()
def change_angle(e): e[3].angle = a2
def change_phase(e): e[3].phase = a3
def change_rotationAxis(e): e[3].rotationAxis = 'y'
def change_axisOfX(e): e[4].rotationAxis = 'z'
def change_angleOfX(e): e[4].angle = a2
def change_phaseOfX(e): e[4].phase = a3
def change_implementation(e): e[4].implementation = 'instant'
def change_implementationBack(e): e[5].implementation = None
def change_angleOfInstant(e): e[5].angle = a2
def change_axisOfInstant(e): e[5].rotationAxis = 'y'
def change_addSys(e): e[3].addSys(e[1])
def change_addSysOfX(e): e[4].system = e[1]
def change_ratio(e): e[3].ratio = r2
def change_extend(e): e[2].addSubSys(Cavity(frequency=f3, dimension=d1))
def change_nest(e): QuantumSystem(subSys=[Cavity(frequency=f3, dimension=d1), e[2]])
'''

COMPOUND = '''
def setup():
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = c + q
    t = s.JC(g1, c, q)
    R = Spin(jValue=j1, frequency=f3)
    o = QuantumSystem(subSys=[R, s])
    P = freeEvolution(system=o)
    P.simTotalTime = T
    P.simStepSize = dt
    return c, q, s, t, R, o, P
def see_hamiltonian(e): return e[2].totalHamiltonian
def see_top(e): return e[5].totalHamiltonian
def see_coupling(e): return e[3].totalHamiltonian
def see_propagator(e): return e[6].unitary()
def change_strength(e): e[3].frequency = g2
def change_cavityDimension(e): e[0].dimension = d2
def change_cavityFrequency(e): e[0].frequency = f4
def change_qubitFrequency(e): e[1].frequency = f4
def change_spinFrequency(e): e[4].frequency = f4
def change_spinDimension(e): e[4].dimension = d3
def change_removeSpin(e): e[5].removeSubSys(e[4])
def change_removeQubit(e): e[2].removeSubSys(e[1])
'''

SIM = '''
def setup():
    q = Qubit(frequency=f1)
    S = Simulation()
    P = freeEvolution(system=q)
    S.addProtocol(protocol=P, system=q)
    S.totalTime = T
    S.stepSize = dt
    return q, S, P
def see_propagator(e): return e[2].unitary()
def see_own(e): return e[0].unitary()
def change_stepSize(e): e[1].stepSize = dt2
def change_totalTime(e): e[1].totalTime = T2
def change_stepCount(e): e[1].stepCount = n2
def change_samples(e): e[1].samples = n2
def change_samplesThenStep(e):
    e[2].simSamples = n2
    e[1].stepSize = dt2
def change_totalThenStep(e):
    e[0].simTotalTime = T2
    e[1].stepSize = dt2
def change_countThenStep(e):
    e[2].simTotalTime = T2
    e[1].stepSize = dt2
def change_systemStep(e):
    e[0].simStepSize = dt3
    e[1].stepSize = dt2
def change_ownStep(e): e[2].simStepSize = dt3
'''

PROGRAMS = dict(qubit=QUBIT, terms=TERMS, cavity=CAVITY, coupling=COUPLING, compound=COMPOUND, gate=GATE, simulation=SIM)

# a change puts the second symbol in the place of the first
SWAPS = dict(qubit=dict(frequency=('f1', 'f2'), simStepSize=('dt', 'dt2')),
             terms=dict(frequency=('g1', 'g2'), firstFrequency=('f1', 'f2'), value=('f5', 'f6')),
             cavity=dict(dimension=('d1', 'd2'), frequency=('f1', 'f2'), simStepSize=('dt', 'dt2')),
             coupling=dict(frequency=('g1', 'g2')),
             compound=dict(strength=('g1', 'g2'), cavityFrequency=('f1', 'f4'), qubitFrequency=('f2', 'f4'),
                           spinFrequency=('f3', 'f4')),
             gate=dict(angle=('a1', 'a2'), angleOfX=('a4', 'a2'), angleOfInstant=('a5', 'a2')),
             simulation=dict(stepSize=('dt', 'dt2')))
# what has to change with these
MUST = dict(qubit=dict(frequency=['hamiltonian', 'propagator'], operator=['hamiltonian', 'propagator'], ratio=['propagator'],
                       simSamples=['propagator'], createTerm=['hamiltonian', 'propagator'], createUpdate=['propagator']),
            terms=dict(operator=['hamiltonian', 'termHamiltonian', 'propagator'], order=['hamiltonian', 'termHamiltonian', 'propagator'],
                       firstOrder=['hamiltonian'], removeTerm=['hamiltonian'], jValue=['hamiltonian', 'termHamiltonian', 'propagator']),
            cavity=dict(ratio=['propagator'], operator=['hamiltonian', 'propagator']),
            coupling=dict(operator=['hamiltonian', 'termHamiltonian', 'propagator'], order=['hamiltonian', 'termHamiltonian', 'propagator'],
                          removeTerm=['hamiltonian', 'propagator']),
            gate=dict(phase=['rotation'], rotationAxis=['rotation'], axisOfX=['xgate'], phaseOfX=['xgate'], implementation=['xgate'],
                      implementationBack=['instant'], axisOfInstant=['instant'], addSys=['rotation'], addSysOfX=['xgate']),
            simulation=dict(stepSize=['propagator', 'own'], samples=['propagator']))


ASSUME = ['parameter values are in general position: a change assigns a different value, and derived quantities differ unless built the '
          'same way', 'matrices are represented by the parameters, dimensions and operators they derive from',
          'parameters are changed through public attributes and methods; closures given by the user are not tracked']


def check(prog, tier):
    rep = Report('C07', prog, tier, RULE, 'Every public parameter of systems, terms, couplings, protocols, gates, updates and simulations is '
                 'changed in client programs over the real classes, read by abstract interpretation; every Hamiltonian and propagator is '
                 'compared, by what it derives from, with the one of a history in which nothing was evaluated before the change, for all '
                 'orders of reading.', ASSUME)
    # a removed term, or a coupling of a removed system, is no part of a system any more
    run(prog, rep, PROGRAMS, tier, must=MUST, swaps=SWAPS, dead={'removeTerm': ['termHamiltonian'], 'resetTerms': ['termHamiltonian'], 'removeQubit': ['coupling']})
    return rep.finish(60)

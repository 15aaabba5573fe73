S = []


def s(id, edits, needs, breaks, demo):
    S.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo))


SYS, TER, PRO, GAT = 'classes/QSystem.py', 'classes/QTerms.py', 'classes/QPro.py', 'classes/QGates.py'
RES, SIM, SIB, SWE, MOD = 'classes/QRes.py', 'classes/QSim.py', 'classes/QSimBase.py', 'classes/QSweep.py', 'classes/modularSweep.py'
BAS, BCL = 'classes/base.py', 'classes/baseClasses.py'
HEAD = '''
import sys, gc, pickle
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox import operators as op
def ham(x):
    h = x.totalHamiltonian
    return h.toarray() if hasattr(h, 'toarray') else h
def mat(x):
    return x.toarray() if hasattr(x, 'toarray') else np.asarray(x)
'''

s('C07-multi-matrix',
  [(TER, '        if self._paramUpdated:\n            self._paramBoundBase__matrix = None', '        if self._paramUpdated and (len(self.subSys) == 0):\n            self._paramBoundBase__matrix = None')],
  'the operators of a coupling changed after the Hamiltonian was computed',
  'the coupling keeps the matrix of its old operators',
  HEAD + '''
a, b = qg.Qubit(frequency=0), qg.Qubit(frequency=0)
s = a + b
t = s.createTerm(qSystem=[a, b], operator=[op.sigmax, op.sigmax], frequency=1)
ham(s)
t.operator = [op.sigmaz, op.sigmaz]
sys.exit(0 if np.allclose(ham(s), np.diag([1, -1, -1, 1])) else 1)
''')

s('C07-instant-angle',
  [(GAT, '''    def instantFlip(self, openSys=False):
        if ((self._paramBoundBase__matrix is None) or (self._paramBoundBase__paramUpdated is True)):''',
    '''    def instantFlip(self, openSys=False):
        if ((self._paramBoundBase__matrix is None) or (self.rotationAxis.lower() != 'x')):''')],
  'the angle of an instantaneous gate changed after its propagator was computed',
  'an instantaneous x gate keeps the matrix of its old angle',
  HEAD + '''
q = qg.Qubit(frequency=1)
g = qg.xGate(system=q, angle=np.pi, implementation='instant')
a = mat(g.unitary())
g.angle = np.pi/2
b = mat(g.unitary())
sys.exit(0 if not np.allclose(a, b) else 1)
''')

s('C08-rebound-simulation',
  [(SIB, '            other._paramBoundBase__paramBound[self.name] = self\n            self._timeBase__bound = other # pylint: disable=assigning-non-slot\n',
    '            if self._timeBase__bound is None:\n                other._paramBoundBase__paramBound[self.name] = self\n            self._timeBase__bound = other # pylint: disable=assigning-non-slot\n')],
  'a simulation that is bound to a second simulation',
  'a simulation that is bound again is not registered with the new source',
  HEAD + '''
a, b, c = qg.Simulation(), qg.Simulation(), qg.Simulation()
a._bound(b)
a._bound(c)
a._paramUpdated = False
c._paramUpdated = True
sys.exit(0 if a._paramUpdated else 1)
''')

s('C09-direct-copy',
  [(PRO, '''    def unitary(self): #pylint:disable=unused-argument
        self.superSys.unitary()
''', '''    def unitary(self): #pylint:disable=unused-argument
        if self.superSys._paramBoundBase__matrix is None: #pylint:disable=protected-access
            self.superSys.unitary()
''')],
  'the propagator of a repeated step requested directly after a change of the step it repeats',
  'a repeated step returns the old propagator of the step',
  HEAD + '''
from quanguru.classes.QPro import copyStep
q = qg.Qubit(frequency=1)
g = qg.xGate(system=q, angle=1.0)
c = g.hc
c.unitary()
g.angle = 2.0
sys.exit(0 if np.allclose(mat(c.unitary()), mat(g.unitary()).T.conj()) else 1)
''')

s('C11-kept-alive',
  [(BAS, '        named._allInstacesDict[self.name] = weakref.ref(self, None)\n', '        named._allInstacesDict[self.name] = self if self._internal else weakref.ref(self, None)\n')],
  'internal objects that are no longer used',
  'internal objects are kept alive by the registry',
  HEAD + '''
import weakref
from quanguru.classes.base import named
n = named(_internal=True)
w = weakref.ref(n)
del n
gc.collect()
sys.exit(0 if w() is None else 1)
''')

s('C12-skipped-slot',
  [(BAS, "            if k == '__weakref__':\n", "            if k in ('__weakref__', 'sampleStates'):\n")],
  'a protocol that is sent to a worker process',
  'an attribute of protocols is missing after the transfer',
  HEAD + '''
q = qg.Qubit(frequency=1)
p = pickle.loads(pickle.dumps(q._freeEvol))
sys.exit(0 if hasattr(p, 'sampleStates') else 1)
''')

s('C13-empty-container',
  [(RES, '''        for sys in self.allResults.values():
            newQRes = qResBlank()
''', '''        for sys in self.allResults.values():
            if len(sys.resultsDict) == 0:
                continue
            newQRes = qResBlank()
''')],
  'a parallel run that stores states but no results',
  'the states of systems without results are not sent back by the workers',
  HEAD + '''
q = qg.Qubit(frequency=1)
q.qRes.states['x'].append(1)
sys.exit(0 if q.qRes.name in q.qRes._copyAllResBlank() else 1)
''')

RUN = '''
def run(order):
    calls = []
    a, b = qg.Qubit(frequency=1), qg.Qubit(frequency=1)
    a.initialState = 0; b.initialState = 0
    sim = qg.Simulation()
    ps = []
    for i, s in enumerate([a, b, a]):
        p = qg.freeEvolution(system=s)
        sim.addProtocol(p, s)
        ps.append(p)
    sim.totalTime, sim.stepSize = 0.2, 0.1
    a.preCompute = lambda *x: calls.append('a')
    b.preCompute = lambda *x: calls.append('b')
    sim.run()
    return calls
'''
s('C14-previous-system',
  [(MOD, '''    calledFor = []
    for protocol, qsystem in qSim.subSys.items():
        if qsystem not in calledFor:
            qsystem._computeBase__calculate("pre") # pylint: disable=protected-access
            calledFor.append(qsystem)
''', '''    last = None
    for protocol, qsystem in qSim.subSys.items():
        if qsystem is not last:
            qsystem._computeBase__calculate("pre") # pylint: disable=protected-access
            last = qsystem
''')],
  'a system shared by two protocols with another system between them',
  'the pre-computation of a shared system is called twice',
  HEAD + RUN + "sys.exit(0 if sorted(run(0)) == ['a', 'b'] else 1)\n")

s('C14-late-reset',
  [(MOD, '''    qSim.qRes._resetLast() # pylint: disable=protected-access
    qSim._computeBase__calculate("pre")
''', '''    qSim._computeBase__calculate("pre")
    qSim.qRes._resetLast() # pylint: disable=protected-access
''')],
  'a pre-computation of the simulation that stores results',
  'results stored by the pre-computation of the simulation are lost',
  HEAD + '''
q = qg.Qubit(frequency=1); q.initialState = 0
sim = qg.Simulation(q)
sim.totalTime, sim.stepSize = 0.2, 0.1
sim.preCompute = lambda s, *a: s.qRes.resultsMethod('k', 1)
sim.run()
sys.exit(0 if 'k' in sim.resultsDict else 1)
''')

s('C15-clear-in-place',
  [(RES, '            qRes._qResBase__results = defaultdict(list)\n            qRes._qResBase__average = defaultdict(list)\n            qRes._qResBase__states = defaultdict(list)\n            qRes._qResBase__resultsLast = defaultdict(list)\n',
    '            qRes._qResBase__results.clear()\n            qRes._qResBase__average = defaultdict(list)\n            qRes._qResBase__states = defaultdict(list)\n            qRes._qResBase__resultsLast = defaultdict(list)\n')],
  'results of an earlier run that the user still holds when the next run starts',
  'the results handed out by an earlier run are emptied by the next one',
  HEAD + '''
q = qg.Qubit(frequency=1); q.initialState = 0
sim = qg.Simulation(q)
sim.totalTime, sim.stepSize = 0.2, 0.1
sim.compute = lambda s, *a: s.qRes.resultsMethod('k', 1)
sim.run()
r = sim.resultsDict
n = len(r)
sim.qRes._reset()
sys.exit(0 if n and len(r) == n else 1)
''')

s('C17-time-dependent-order',
  [(PRO, 'unitary = self._createUnitary(collapseOps, decayRates) @ unitary # pylint: disable=no-member',
    'unitary = unitary @ self._createUnitary(collapseOps, decayRates) # pylint: disable=no-member')],
  'a time-dependent protocol whose propagators at different times do not commute',
  'the propagators of later times are multiplied on the right',
  HEAD + '''
q = qg.Qubit(frequency=1)
q.simTotalTime, q.simStepSize = 1, 1
g = qg.SpinRotation(system=q, angle=np.pi/2, rotationAxis='x')
w = g.timeDependency.createSweep(system=g, sweepKey='rotationAxis', sweepList=['x', 'z'])
g.timeDependency.prepare()
a = mat(g.unitary())
x = mat(qg.SpinRotation(system=q, angle=np.pi/2, rotationAxis='x').unitary())
z = mat(qg.SpinRotation(system=q, angle=np.pi/2, rotationAxis='z').unitary())
sys.exit(0 if np.allclose(a, z @ x) else 1)
''')

s('C18-axis',
  [(GAT, "            raise ValueError('unknown axis')\n        self._rotationOp = rotationOp\n", "            setAttr(self, '_SpinRotation__rotationAxis', axStr)\n            raise ValueError('unknown axis')\n        self._rotationOp = rotationOp\n")],
  'a rotation axis that is not one of the three',
  'a rejected axis is stored',
  HEAD + '''
q = qg.Qubit(frequency=1)
g = qg.SpinRotation(system=q, angle=1, rotationAxis='x')
try:
    g.rotationAxis = 'w'
except ValueError:
    pass
sys.exit(0 if g.rotationAxis == 'x' else 1)
''')

s('C18-composite-flag',
  [(SYS, '''        if self._QuantumSystem__compSys is False: # pylint:disable=no-member
            raise TypeError(''', '''        if self._QuantumSystem__compSys is False: # pylint:disable=no-member
            subSys._named__setKwargs(**kwargs)
            raise TypeError(''')],
  'adding a system with keyword arguments to a single system',
  'the rejected sub-system is changed by the keyword arguments',
  HEAD + '''
c = qg.Cavity(dimension=2)
q = qg.Qubit(frequency=1)
try:
    c.addSubSys(q, frequency=5)
except TypeError:
    pass
sys.exit(0 if q.frequency == 1 else 1)
''')

s('C22-ambiguous-sum',
  [(SYS, '''        else:
            other.addSubSys(self)
            newComp = other
        return newComp
''', '''        elif other._QuantumSystem__compSys:
            other.addSubSys(self)
            newComp = other
        return newComp
''')],
  'a single system added to a system whose type is not known yet',
  'the sum of a single and an undetermined system is never assigned',
  HEAD + '''
q = qg.Qubit(frequency=1)
n = qg.QuantumSystem()
try:
    r = q + n
except UnboundLocalError:
    sys.exit(1)
sys.exit(0)
''')

s('C23-samples',
  [(SIB, "            for key in (*keys, *params, '_timeBase__samples'):\n", "            for key in (*keys, *params, *(('_timeBase__samples',) if re else ())):\n")],
  'the number of samples set on a simulation that others are bound to',
  'the number of samples is not bound to the source',
  HEAD + '''
a, b = qg.Simulation(), qg.Simulation()
a._bound(b)
b.samples = 4
sys.exit(0 if a.samples == 4 else 1)
''')

s('C26-coefficients',
  [(SYS, '            newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot\n', '')],
  'a system whose initial state is given by coefficients',
  'the copy takes the coefficients for populations',
  HEAD + '''
q = qg.Qubit(frequency=1, _inpCoef=True)
q.initialState = {0: 0.6, 1: 0.8}
d = q.copy()
d.delMatrices(_exclude=[])
sys.exit(0 if np.allclose(mat(q.initialState), mat(d.initialState)) else 1)
''')

s('C06-phase-others',
  [(GAT, 'flipUn = evolution.Unitary(self.phase*self.angle*flipOpN) @ flipUn', 'flipUn = evolution.Unitary(self.angle*flipOpN) @ flipUn')],
  'a rotation of several systems with a phase other than one',
  'only the first system is rotated by the phase times the angle',
  HEAD + '''
a, b = qg.Qubit(frequency=1), qg.Qubit(frequency=1)
s = a + b
g = qg.SpinRotation(system=[a, b], angle=1.0, rotationAxis='x', phase=-1)
x = mat(qg.QuantumToolbox.spinRotations.spinRotation('x', -1.0, 0.5)) if hasattr(qg, 'QuantumToolbox') else None
from quanguru.QuantumToolbox.spinRotations import spinRotation
x = mat(spinRotation('x', -1.0, 0.5))
sys.exit(0 if np.allclose(mat(g.unitary()), np.kron(x, x)) else 1)
''')

"""C18: a rejected assignment leaves the object as it was."""
from .histories import *
from ..client import show

RULE = ('abstract interpretation of invalid assignments: on every path on which one raises, everything that can be read from the object and '
        'the objects connected to it is the same as before the assignment')

READ = '''
def see_sizes(e): return [(x.dimension, x._dimsBefore, x._dimsAfter, x._totalDim, x.subSysDimensions) for x in e[0]]
def see_members(e): return [(x.superSys, [y for y in x.subSys.values()], x._isComposite) for x in e[0]]
def see_terms(e): return [[t for t in x.terms.values()] for x in e[0]]
def see_operators(e): return [(t.operator, t.order, t.frequency, t.qSystem, t.superSys, [(u.operator, u.order, u.frequency, u.qSystem) for u in t.subSys.values()]) for t in e[1]]
def see_values(e): return [(x.operator, x.order, x.frequency) for x in e[0] if len(x.terms) > 0]
def see_gates(e): return [(g.rotationAxis, g._rotationOp, g.angle, g.phase, g.implementation) for g in e[2]]
def see_hamiltonians(e): return [x.totalHamiltonian for x in e[3]]
'''

SINGLE = '''
def setup():
    c = Cavity(frequency=f1, dimension=d1)
    q = Qubit(frequency=f2)
    s = Spin(frequency=f3, jValue=2)
    g = QuantumSystem(dimension=2, operator=sigmax, frequency=f4)
    k = c.createTerm(operator=create, frequency=f5, order=n1)
    return [c, q, s, g], [c._firstTerm, q._firstTerm, s._firstTerm, g._firstTerm, k], [], [c, q, s, g], k
def reject_dimensionText(e): e[0][0].dimension = 'a'
def reject_dimensionFloat(e): e[0][0].dimension = 2.5
def reject_dimensionZero(e): e[0][0].dimension = 0
def reject_dimensionNegative(e): e[0][0].dimension = -3
def reject_dimensionNone(e): e[0][0].dimension = None
def reject_dimensionPauli(e): e[0][3].dimension = 5
def reject_dimensionPauliUnknown(e): e[0][3].dimension = d5
def reject_jValueNegative(e): e[0][2].jValue = -2
def reject_jValueText(e): e[0][2].jValue = 'a'
def reject_frequencyText(e): e[0][0].frequency = 'a'
def reject_frequencyList(e): e[0][1].frequency = [1, 2]
def reject_termFrequencyText(e): e[4].frequency = 'a'
def reject_operatorPauli(e): e[0][2].operator = sigmaz
def reject_termOperatorPauli(e): e[4].operator = sigmaz
def reject_operatorList(e): e[0][0].operator = [number]
def reject_operatorLists(e): e[4].operator = [create, destroy]
def reject_orderList(e): e[4].order = [2, 3]
def reject_orderTuple(e): e[0][1].order = (2,)
def reject_systemNumber(e): e[4].qSystem = 5
def reject_systemNone(e): e[4].qSystem = None
def reject_systemText(e): e[0][0]._firstTerm.qSystem = 'nothing'
def reject_systemListWithoutSuper(e): e[4].qSystem = [e[0][0], 'nothing']
def reject_systemObject(e): e[4].qSystem = [e[0][0], 5]
def reject_addToSingle(e): e[0][0].addSubSys(e[0][1])
def reject_addToSingleWith(e): e[0][0].addSubSys(e[0][1], frequency=f7)
def reject_addToSingleWithDimension(e): e[0][1].addSubSys(e[0][0], dimension=4)
def reject_addToSingleWithOperator(e): e[0][3].addSubSys(e[0][0], operator=create)
def reject_addListToSingle(e): e[0][0].addSubSys([e[0][1], e[0][2]], frequency=f7)
def reject_addNumber(e): e[0][0].addSubSys(5)
def reject_addNumberWith(e): e[0][0].addSubSys(5, frequency=f7)
def reject_addNothing(e): e[0][0].addSubSys('nothing')
def reject_createInSingle(e): e[0][0].createSubSys(Qubit)
def reject_createInSingleWith(e): e[0][0].createSubSys(Qubit, frequency=f7)
def reject_plusNumber(e): e[0][0] + 5
def reject_removeFromSingle(e): e[0][0].removeSubSys(e[0][1])
def reject_termPauli(e): e[0][0].createTerm(operator=sigmax, frequency=f6)
def reject_termFrequency(e): e[0][0].createTerm(operator=number, frequency='a')
def reject_termOrder(e): e[0][0].createTerm(operator=number, order=[1, 2], frequency=f6)
def reject_termOperators(e): e[0][0].createTerm(operator=[number, create], frequency=f6)
def reject_termCoupling(e): e[0][0].createTerm(qSystem=[e[0][0], e[0][1]], operator=[create, sigmam], frequency=f6)
def reject_termSystem(e): e[0][0].createTerm(qSystem='nothing', operator=number, frequency=f6)
def reject_addTermsNumber(e): e[0][0].addTerms(5)
def reject_addTermsSystem(e): e[0][0].addTerms(e[0][1])
def reject_addTermsNothing(e): e[0][0].addTerms('nothing')
def reject_removeTermNothing(e): e[0][0].removeTerm('nothing')
def reject_removeTermSystem(e): e[0][0].removeTerm(e[0][1])
'''

COMPOSITE = '''
def setup():
    a = Cavity(frequency=f1, dimension=d1)
    q = QuantumSystem(dimension=2, operator=sigmaz, frequency=f2)
    p = Qubit(frequency=f3)
    s = QuantumSystem(subSys=[a, q])
    S = QuantumSystem(subSys=[p, s])
    k = s.createTerm(qSystem=[a, q], operator=[create, sigmam], frequency=f4)
    l = S.createTerm(qSystem=[p, a], operator=[sigmax, number], order=[1, n2], frequency=f5)
    x = Cavity(frequency=f6, dimension=d6)
    return [a, q, p, s, S, x], [a._firstTerm, q._firstTerm, p._firstTerm, k, l], [], [a, q, p, s, S], k, l
def reject_dimensionText(e): e[0][0].dimension = 'a'
def reject_dimensionZero(e): e[0][0].dimension = 0
def reject_dimensionFloat(e): e[0][2].dimension = 1.5
def reject_dimensionPauli(e): e[0][1].dimension = 3
def reject_operatorSingle(e): e[4].operator = number
def reject_operatorShort(e): e[4].operator = [number]
def reject_operatorLong(e): e[5].operator = [sigmax, number, create]
def reject_operatorPauli(e): e[4].operator = [sigmax, sigmam]
def reject_operatorPauliSecond(e): e[5].operator = [create, sigmap]
def reject_operatorNumber(e): e[4].operator = 5
def reject_orderSingle(e): e[4].order = 2
def reject_orderNone(e): e[5].order = None
def reject_orderShort(e): e[5].order = [2]
def reject_orderLong(e): e[5].order = [2, 3, 4]
def reject_frequencyText(e): e[4].frequency = 'a'
def reject_frequencyList(e): e[5].frequency = [1, 2]
def reject_systemNothing(e): e[4].qSystem = [e[0][0], 'nothing']
def reject_systemNumber(e): e[5].qSystem = 5
def reject_systemNone(e): e[5].qSystem = None
def reject_systemFirst(e): e[5].qSystem = ['nothing', e[0][0]]
def reject_circular(e): e[0][3].addSubSys(e[0][4])
def reject_circularSelf(e): e[0][3].addSubSys(e[0][3])
def reject_circularSet(e): e[0][4].addSubSys(e[0][4])
def reject_circularWith(e): e[0][3].addSubSys(e[0][4], superSys=e[0][5])
def reject_circularSelfWith(e): e[0][3].addSubSys(e[0][3], superSys=e[0][5])
def reject_addNumber(e): e[0][3].addSubSys(5)
def reject_addNothing(e): e[0][4].addSubSys('nothing')
def reject_addWithDimension(e): e[0][4].addSubSys(e[0][5], dimension='a')
def reject_createWithDimension(e): e[0][4].createSubSys(Cavity, dimension=0)
def reject_createWithFrequency(e): e[0][3].createSubSys(Cavity, frequency='a')
def reject_couplingElsewhere(e): e[0][3].createTerm(qSystem=[e[0][0], e[0][2]], operator=[create, sigmam], frequency=f7)
def reject_couplingPauli(e): e[0][4].createTerm(qSystem=[e[0][0], e[0][2]], operator=[sigmax, sigmam], frequency=f7)
def reject_couplingShort(e): e[0][4].createTerm(qSystem=[e[0][0], e[0][2]], operator=[create], frequency=f7)
def reject_couplingOrder(e): e[0][4].createTerm(qSystem=[e[0][0], e[0][2]], operator=[create, sigmam], order=[1], frequency=f7)
def reject_couplingFrequency(e): e[0][4].createTerm(qSystem=[e[0][0], e[0][2]], operator=[create, sigmam], frequency='a')
def reject_couplingSystem(e): e[0][4].createTerm(qSystem=[e[0][0], 'nothing'], operator=[create, sigmam], frequency=f7)
def reject_removeNothing(e): e[0][4].removeSubSys('nothing')
def reject_removeNumber(e): e[0][4].removeSubSys(5)
def reject_removeFromSingle(e): e[0][2].removeSubSys(e[0][0])
def reject_minusNumber(e): e[0][4] - 5
def reject_addTermsNumber(e): e[0][4].addTerms(5)
def reject_addTermsSystem(e): e[0][4].addTerms(e[0][5])
'''

UNDECIDED = '''
def setup():
    u = QuantumSystem()
    a = Cavity(frequency=f1, dimension=d1)
    b = Qubit(frequency=f2)
    return [u, a, b], [a._firstTerm, b._firstTerm], [], [a, b]
def see_type(e): return e[0][0]._isComposite
def reject_self(e): e[0][0].addSubSys(e[0][0])
def reject_selfWith(e): e[0][0].addSubSys(e[0][0], dimension=4)
def reject_number(e): e[0][0].addSubSys(5)
def reject_nothing(e): e[0][0].addSubSys('nothing')
def reject_dimension(e): e[0][0].dimension = 'a'
def reject_dimensionZero(e): e[0][0].dimension = 0
def reject_dimensionFloat(e): e[0][0].dimension = 0.5
def reject_withDimension(e): e[0][0].addSubSys(e[0][1], dimension='a')
def reject_create(e): e[0][0].createSubSys(Cavity, dimension=0)
def reject_coupling(e): e[0][0].createTerm(qSystem=[e[0][1], e[0][2]], operator=[create, sigmam], frequency=f3)
def reject_terms(e): e[0][0].addTerms(5)
'''

GATES = '''
def setup():
    q = Qubit(frequency=f1)
    p = Qubit(frequency=f2)
    s = QuantumSystem(subSys=[q, p])
    g = SpinRotation(system=q, angle=t1, rotationAxis='y')
    h = xGate(system=p, angle=t2)
    i = SpinRotation(system=p, angle=t3, phase=t4, rotationAxis='z')
    return [q, p, s], [q._firstTerm, p._firstTerm], [g, h, i], [s]
def see_unitaries(e): return [g.unitary() for g in e[2]]
def reject_axis(e): e[2][0].rotationAxis = 'w'
def reject_axisEmpty(e): e[2][0].rotationAxis = ''
def reject_axisLong(e): e[2][1].rotationAxis = 'xy'
def reject_axisNumber(e): e[2][1].rotationAxis = 5
def reject_axisNone(e): e[2][2].rotationAxis = None
def reject_axisOther(e): e[2][2].rotationAxis = 'a'
'''

PROGRAMS = dict(single=SINGLE, composite=COMPOSITE, untyped=UNDECIDED, gates=GATES)


def observe(S, st):
    out = {}
    for o in S.obs:
        try:
            if o in ('see_hamiltonians', 'see_unitaries'):
                out[o] = S.see(st, o)[1]
            else:
                s, v = S.do(st, o)
                out[o] = S.c.I.freeze(s, v)
        except Stopped as e:
            out[o] = ('raises', e.raised.exc)
        except Unsupported as e:
            out[o] = e
    return out


def judge_reject(rep, S, m, before):
    key = f'{S.name}:{m[7:]}'
    with rep.guard(key):
        outs = S.c.run(m, S.env, st=S.s0)
        raised = [(s, v) for s, v in outs if isinstance(v, Raise)]
        if not raised:
            rep.count('invalid values that are accepted')
            return
        for s, v in raised:
            rep.count('rejecting paths')
            after = observe(S, s)
            for o in S.obs:
                b, a = before[o], after[o]
                if isinstance(b, Exception) or isinstance(a, Exception):
                    raise Unsupported(f'{o}: {b if isinstance(b, Exception) else a}')
                rep.count('readings compared')
                if a != b:
                    rep.bad(key, blame(S.c.p, S, m), f'in {S.name}, {m[7:]} raises {v.exc} but changes {o[4:]}: {diff(b, a)}')
                    return
        rep.ok(key, f'{len(raised)} rejecting paths')


def diff(b, a):
    """the first place where two readings differ"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(b, a):
            if x != y:
                return diff(x, y)
    return f'{show(b)[:100] if isinstance(b, tuple) else b} became {show(a)[:100] if isinstance(a, tuple) else a}'


def check(prog, tier):
    rep = Report('C18', prog, tier, RULE, 'Invalid dimensions, spins, frequencies, operators, orders, systems, rotation axes, terms and '
                 'sub-systems in client programs over single, composite and untyped systems and gates. The heap is read through the public '
                 'attributes before and after every rejecting path.', ['the values not listed in a program are symbols'])
    jobs = []
    for name, src in PROGRAMS.items():
        with rep.guard(name):
            S = Scenario(prog, name, src + READ)
            rep.count('programs')
            before = observe(S, S.s0)
            for m in S.c.funcs:
                if m.startswith('reject_'):
                    jobs.append((judge_reject, (S, m, before)))
    parallel(rep, jobs)
    return rep.finish(40)

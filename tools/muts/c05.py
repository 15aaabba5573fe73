E='QuantumToolbox/evolution.py'; S='QuantumToolbox/states.py'; G='classes/QGates.py'
def rd(f): return open('/repo/src/quanguru/'+f).read()
import re
e=rd(E)
def line(frag):
    for l in e.split('\n'):
        if frag in l: return l
    raise KeyError(frag)
M=[
 ('postT','bad',[(E,'sp.kron(operator.transpose(), identity','sp.kron(operator, identity')]),
 ('post_conj','bad',[(E,'sp.kron(operator.transpose(), identity','sp.kron(operator.conj().transpose(), identity')]),
 ('pre_swap','bad',[(E,"sp.kron(identity, operator, format='csc')","sp.kron(operator, identity, format='csc')")]),
 ('prepost','bad',[(E,"sp.kron(operatorB.transpose(), operatorA","sp.kron(operatorB.conj(), operatorA")]),
 ('number','bad',[(E,"number = operatorB @ operatorA","number = operatorA @ operatorB")]),
 ('number_hc','bad',[(E,"number = operatorB @ operatorA","number = hc(operatorA) @ operatorA")]),
 ('half','bad',[(E,"0.5 * (part2 + part3)","0.5 * (part2 - part3)")]),
 ('sign','bad',[(E,"-1j * (hamPart1 - hamPart2)","1j * (hamPart1 - hamPart2)")]),
 ('plus','bad',[(E,"hamPart1 - hamPart2","hamPart1 + hamPart2")]),
 ('rate0','bad',[(E,"decayRates[idx]*collapsePart","decayRates[0] * collapsePart")]),
 ('rateSq','bad',[(E,"decayRates[idx]*collapsePart","decayRates[idx]**2 * collapsePart")]),
 ('tup_second','bad',[(E,"dissipator(collapseOperator[0], collapseOperator[1]","dissipator(collapseOperator[0]")]),
 ('mat2vec','bad',[(S,"denMat.T.reshape(","denMat.reshape(")]),
 ('vec2mat','bad',[(S,"vec.reshape((n, n)).T","vec.reshape((n, n))")]),
 ('gate_hc','bad',[(G,"evolution._prepostSO(flipUn, hc(flipUn))","evolution._prepostSO(flipUn, flipUn)")]),
 ('gate_hc2','bad',[(G,"evolution._prepostSO(flipOp, hc(flipOp))","evolution._prepostSO(hc(flipOp), flipOp)")]),
 ('gate_pre','bad',[(G,"evolution._prepostSO(flipOp, hc(flipOp))","evolution._preSO(flipOp)")]),
 ('exp_step','bad',[(E,"slinA.expm(liouvillian * timeStep)","slinA.expm(liouvillian)")]),
 ('closed_noT','bad',[(E,"liouvillianEXP = Unitary(Hamiltonian, timeStep)","liouvillianEXP = Unitary(Hamiltonian)")]),
 ('evolve_mat','bad',[(E,"        denMat = vec2Mat(rhoL)\n","        denMat = vec2Mat(rhoL).T\n")]),
 ('conj_same','same',[(E,"sp.kron(operator.transpose(), identity","sp.kron(operator.T, identity")]),
 ('distribute','same',[(E,"-1j * (hamPart1 - hamPart2)","1j * hamPart2 - 1j * hamPart1")]),
 ('sumloop','same',[(E,"(part1 - (0.5 * (part2 + part3)))","(part1 - part2/2 - 0.5*part3)")]),
 ('order_F','same',[(S,"denMat.T.reshape(np.prod(np.shape(denMat)), 1)","denMat.reshape((np.prod(np.shape(denMat)), 1), order='F')")]),
 ('vecF','same',[(S,"vec.reshape((n, n)).T","vec.reshape((n, n), order='F')")]),
 ('kronconj','same',[(G,"evolution._prepostSO(flipUn, hc(flipUn))","evolution._prepostSO(flipUn, flipUn.conj().T)")]),
 ('zip','same',[(E,"for idx, collapseOperator in enumerate(collapseOperators):","for idx in range(len(collapseOperators)):\n            collapseOperator = collapseOperators[idx]")]),
 ('comm','same',[(E,"number = operatorB @ operatorA","number = operatorB @ operatorA\n    number = number.copy()")]),
]

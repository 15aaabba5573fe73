S = []


def s(id, edits, needs, breaks, demo):
    S.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo))


SYS, TER, CPL, QUA, HAM = ('classes/QSystem.py', 'classes/QTerms.py', 'classes/extensions/couplings.py', 'QuantumToolbox/quasiProbabilities.py',
                           'QuantumToolbox/Hamiltonians.py')
HEAD = '''
import sys
import numpy as np
from math import factorial
from scipy.linalg import expm
from quanguru import QuantumSystem, Qubit, Cavity, Spin
from quanguru.QuantumToolbox import operators as op, quasiProbabilities as qp, Hamiltonians as hm, states as st
def mat(x):
    return x.toarray() if hasattr(x, 'toarray') else np.asarray(x)
def kron(*xs):
    out = np.eye(1)
    for x in xs:
        out = np.kron(out, np.eye(x) if isinstance(x, int) else mat(x))
    return out
def same(a, b):
    a, b = mat(a), mat(b)
    return a.shape == b.shape and np.allclose(a, b)
'''

s('C29-product-order',
  [(TER, "_matMulInputs(*opers)", "_matMulInputs(*opers[::-1])")],
  'one system listed twice in a coupling with operators that do not commute',
  'the operators of a coupling are multiplied in reverse order',
  HEAD + '''
a, b = Cavity(frequency=1, dimension=3), Qubit(frequency=2)
S = a + b
S.createTerm(qSystem=[a, b, a], operator=[op.create, op.sigmax, op.destroy], frequency=0.3)
want = kron(op.number(3), 2) + 2*kron(3, op.Jz(0.5)) + 0.3*kron(mat(op.create(3)) @ mat(op.destroy(3)), op.sigmax())
sys.exit(0 if same(S.totalHamiltonian, want) else 1)
''')
s('C29-removed-place',
  [(SYS, "            subSys.superSys = None\n            subSys._dimsAfter = 1\n            subSys._dimsBefore = 1\n            subSys.delMatrices(_exclude=[])",
    "            subSys.superSys = None\n            subSys._dimsAfter = 1\n            subSys.delMatrices(_exclude=[])")],
  'a system that was not the first part of the composite it is removed from',
  'a removed system keeps the dimensions of the systems before it',
  HEAD + '''
a, b = Cavity(frequency=1.1, dimension=2), Cavity(frequency=1.7, dimension=3)
S = QuantumSystem(subSys=[a, b])
S.totalHamiltonian
S.removeSubSys(b)
sys.exit(0 if same(b.totalHamiltonian, 1.7*mat(op.number(3))) else 1)
''')
s('C29-total-spin',
  [(TER, "qOps.Jm, qOps.Jp, qOps.Js]:", "qOps.Jm, qOps.Jp]:")],
  'a term with the total spin operator',
  'the dimension of the system is taken for its spin',
  HEAD + '''
a = Spin(frequency=1.1, jValue=1)
try:
    a.createTerm(operator=op.Js, frequency=0.3)
    sys.exit(0 if same(a.totalHamiltonian, 1.1*mat(op.Jz(1)) + 0.3*mat(op.Js(1))) else 1)
except ValueError:
    sys.exit(1)
''')
s('C29-pauli-power',
  [(TER, "operMat = _matPower(oper(), order)", "operMat = oper()")],
  'a Pauli operator of even order',
  'orders of Pauli operators are ignored',
  HEAD + '''
a = Qubit(frequency=1.1)
a.createTerm(operator=op.sigmax, frequency=0.3, order=2)
sys.exit(0 if same(a.totalHamiltonian, 1.1*mat(op.Jz(0.5)) + 0.3*np.eye(2)) else 1)
''')
s('C30-overwritten-row',
  [(QUA, "            temp = copy(Wlist[n])\n            Wlist[n] = temp2", "            temp = Wlist[n]\n            Wlist[n] = temp2")],
  'states of dimension three or more with coherences above the first row',
  'the recursion of the Wigner function uses a value that has been overwritten',
  HEAD + GRID + '''
for n in (2, 3, 4):
    r = rho(n)
    if not np.allclose(qp.Wigner(r, vec), W(r, vec), atol=1e-6):
        sys.exit(1)
''')
s('C30-conjugated-coherence',
  [(QUA, "            W += 2 * real(rho[m, n] * Wlist[n])\n    return", "            W += 2 * real(rho[n, m] * Wlist[n])\n    return")],
  'complex coherences between excited levels',
  'coherences above the first row enter the Wigner function complex conjugated',
  HEAD + GRID + '''
r = rho(3)
sys.exit(0 if np.allclose(qp.Wigner(r, vec), W(r, vec), atol=1e-6) else 1)
''')
s('C30-mirrored-husimi',
  [(QUA, "[0], conjugate(alphaMat))) ** 2", "[0], alphaMat)) ** 2")],
  'a state with complex coherences',
  'the Husimi function is mirrored at the real axis',
  HEAD + GRID + '''
r = rho(3)
sys.exit(0 if np.allclose(qp.HusimiQ(r, vec), Q(r, vec)) else 1)
''')
s('C30-wigner-ket',
  [(QUA, "        rho = densityMatrix(rho)", "        rho = rho @ rho.T")],
  'a ket with complex amplitudes',
  'the Wigner function of a ket is computed without complex conjugation',
  HEAD + GRID + '''
k = np.array([[1], [1j], [0.5 - 0.2j]])
k = k/np.linalg.norm(k)
sys.exit(0 if np.allclose(qp.Wigner(k, vec), W(k @ k.conj().T, vec), atol=1e-6) else 1)
''')
s('C30-zero-detuning',
  [(HAM, "    D = wq-wc\n", "    D = abs(wq-wc)\n")],
  'a qubit below the cavity',
  'the analytic propagator has the wrong sign of the detuning',
  HEAD + '''
for wq, wc in ((1.3, 0.7), (0.7, 1.3)):
    g, t, N = 0.2, 1.1, 4
    a = np.diag(np.sqrt(np.arange(1, N)), 1)
    s = np.array([[0, 1], [0, 0]])
    H = wc*np.kron(a.T @ a, np.eye(2)) + wq/2*np.kron(np.eye(N), np.diag([-1, 1])) + g*(np.kron(a.T, s) + np.kron(a, s.T))
    if not np.allclose(hm.UJC(wq, wc, g, t, N), expm(-1j*H*t)):
        sys.exit(1)
''')
s('C30-anti-jc',
  [(HAM, "    couplingAJC = g*(sp.kron(sigmap(), create(cavDim), format='csc') + sp.kron(sigmam(), destroy(cavDim), format='csc'))",
    "    couplingAJC = g*sp.kron(sigmax(), create(cavDim), format='csc')")],
  'the anti-Jaynes-Cummings model',
  'the coupling contains the resonant term and is not hermitian',
  HEAD + '''
N = 4
a = np.diag(np.sqrt(np.arange(1, N)), 1)
up = np.array([[0, 1], [0, 0]])
want = 0.7*np.kron(np.eye(2), a.T @ a) + 1.3*np.kron(np.diag([1, -1]), np.eye(N)) + 0.2*(np.kron(up, a.T) + np.kron(up.T, a))
sys.exit(0 if same(hm.aJCHam(1.3, 0.7, 0.2, N), want) else 1)
''')

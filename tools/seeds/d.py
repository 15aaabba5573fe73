S = []


def s(id, edits, needs, breaks, demo):
    S.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo))


FUN, RMT, IPR, EIG, THE, LIN = ('QuantumToolbox/functions.py', 'QuantumToolbox/rmtDistributions.py', 'QuantumToolbox/IPR.py',
                                'QuantumToolbox/eigenVecVal.py', 'QuantumToolbox/thermodynamics.py', 'QuantumToolbox/linearAlgebra.py')
HEAD = '''
import sys
import numpy as np
from quanguru.QuantumToolbox import functions as fu, states as st, operators as op, linearAlgebra as la, rmtDistributions as rd
from quanguru.QuantumToolbox import IPR, eigenVecVal as ev, thermodynamics as td
def mat(x):
    return x.toarray() if hasattr(x, 'toarray') else np.asarray(x)
rng = np.random.default_rng(3)
def rho(n):
    a = rng.normal(size=(n, n)) + 1j*rng.normal(size=(n, n))
    a = a @ a.conj().T
    return a/np.trace(a)
'''

s('C27-complex-difference',
  [(FUN, '    diff = hc(diff) @ diff\n', '    diff = diff.T @ diff\n')],
  'two states whose difference is complex',
  'the trace distance is not half the sum of the singular values of the difference',
  HEAD + '''
a, b = rho(3), rho(3)
want = 0.5*np.sum(np.abs(np.linalg.eigvalsh(a - b)))
sys.exit(0 if np.isclose(fu.traceDistance(a, b), want) else 1)
''')
s('C27-flipped-state',
  [(FUN, '    magicConj = SySy @ state.conj() @ SySy', '    magicConj = SySy @ hc(state) @ SySy')],
  'a density matrix with complex coherences',
  'the concurrence is computed with the state itself in place of its complex conjugate',
  HEAD + '''
k = np.array([[1], [0], [0], [1j]])/np.sqrt(2)
r = k @ k.conj().T
k2 = np.kron(np.array([[1], [1j]]), np.array([[1], [2j]]))/np.sqrt(10)
r2 = k2 @ k2.conj().T
ok = abs(fu.concurrence(r) - 1) < 1e-6 and abs(fu.concurrence(r2)) < 1e-6
sys.exit(0 if ok else 1)
''')
s('C27-complex-mean',
  [(FUN, '    return np.real(expc) if np.round(expc.imag, 12) == 0.0 else expc', '    return np.real(expc) if np.round(expc.imag, 12) == 0.0 else abs(expc)')],
  'an operator that is not Hermitian',
  'the expectation value of an operator that is not Hermitian loses its phase',
  HEAD + '''
a = op.destroy(4)
k = np.array([[1], [1j], [0], [0]])/np.sqrt(2)
want = (k.conj().T @ mat(a) @ k)[0, 0]
sys.exit(0 if np.isclose(fu.expectation(a, k), want) else 1)
''')
s('C27-natural-log',
  [(FUN, '        logvals = np.log2(nzvals)', '        logvals = np.log10(nzvals)/np.log10(np.e)')],
  'the entropy in bits',
  'the entropy in bits is returned in nats',
  HEAD + '''
sys.exit(0 if np.isclose(fu.entropy(np.eye(4)/4, base2=True), 2) else 1)
''')
s('C27-eigen-rows',
  [(FUN, '    sortedVecsMat = [mat2Vec(sortedVecs[:, ind]) for ind in range(len(sortedVecs))]', '    sortedVecsMat = [mat2Vec(vec) for vec in np.conj(sortedVecs.T)]')],
  'a Hermitian matrix with complex elements',
  'the sorted eigenvectors are the complex conjugates of the eigenvectors',
  HEAD + '''
a = rho(3)
vals, vecs = fu.sortedEigens(a)
sys.exit(0 if all(np.allclose(a @ np.asarray(v).reshape(-1, 1), w*np.asarray(v).reshape(-1, 1)) for w, v in zip(vals, vecs)) else 1)
''')
s('C28-even-dimension',
  [(RMT, '        dist = ((1 - x)**((dim-3)/2))/(np.sqrt(np.pi*x))', '        dist = ((1 - x)**((dim-3)//2))/(np.sqrt(np.pi*x))')],
  'the orthogonal ensemble in an even dimension',
  'the density of eigenvector components is no longer normalised in even dimensions',
  HEAD + '''
u = (np.arange(20000) + 0.5)/20000
tot = np.mean([rd.EigenVectorDist(x*x, 6, 1)*2*x for x in u])
sys.exit(0 if abs(tot - 1) < 1e-3 else 1)
''')
s('C28-symplectic-surmise',
  [(RMT, '(2**18)/((3**6)*(np.pi**3))', '(2**18)/((3**6)*(np.pi**2))')],
  'level spacings of the symplectic ensemble',
  'the surmise is not normalised',
  HEAD + '''
u = (np.arange(20000) + 0.5)*10/20000
tot = np.mean([rd.WignerDyson(x, 4) for x in u])*10
sys.exit(0 if abs(tot - 1) < 1e-3 else 1)
''')
s('C28-poisson-factorial',
  [(RMT, 'return ((np.e**(-gammaln(x+1)))*(lam**x))*(np.e**(-lam))', 'return ((np.e**(-gammaln(x)))*(lam**(x-1)))*(np.e**(-lam))')],
  'counts of the Poisson distribution',
  'the distribution is shifted by one count',
  HEAD + '''
tot = sum(rd.Poissonian(x, 2.0) for x in range(0, 60))
mean = sum(x*rd.Poissonian(x, 2.0) for x in range(0, 60))
sys.exit(0 if abs(tot - 1) < 1e-6 and abs(mean - 2) < 1e-6 else 1)
''')

S = []


def s(id, edits, needs, breaks, demo):
    S.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo))


OPS = 'QuantumToolbox/operators.py'
STS = 'QuantumToolbox/states.py'
EVO = 'QuantumToolbox/evolution.py'
LIN = 'QuantumToolbox/linearAlgebra.py'
HAM = 'QuantumToolbox/Hamiltonians.py'
COU = 'classes/extensions/couplings.py'

s('C01-identity-cache',
  [(OPS, 'def identity(dimension: int, sparse: bool = True) -> Matrix:\n', '@lru_cache(maxsize=None)\ndef identity(dimension: int, sparse: bool = True) -> Matrix:\n'),
   (OPS, 'from typing import Callable\n', 'from functools import lru_cache\nfrom typing import Callable\n')],
  'an identity that is changed by the caller before another call asks for one',
  'identity returns the same object to every caller',
  '''
import sys
from quanguru.QuantumToolbox.operators import identity
a = identity(3, sparse=False)
a[0, 0] = 7
sys.exit(0 if identity(3, sparse=False)[0, 0] == 1 else 1)
''')

s('C02-large-identity',
  [(OPS, 'return sp.identity(dimension, format="csc") if sparse else np.identity(dimension)',
    'return sp.identity(dimension, format="csc") if (sparse or (dimension > 256)) else np.identity(dimension)')],
  'a dense identity of a large dimension',
  'identity returns a sparse matrix for large dimensions although a dense one is requested',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.operators import identity
sys.exit(0 if isinstance(identity(300, sparse=False), np.ndarray) else 1)
''')

s('C02-first-power',
  [(OPS, '        opPow = _matPower(op(dim, sparse), power)\n', '        opPow = op(dim) if power == 1 else _matPower(op(dim, sparse), power)\n')],
  'a dense first power of an operator with a dimension',
  'operatorPow returns a sparse matrix for the first power',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.operators import operatorPow, create
sys.exit(0 if isinstance(operatorPow(create, 3, 1, False), np.ndarray) else 1)
''')

s('C02-single-composite',
  [(STS, "    return st.A if ( (not sparse) and (isinstance(st, spmatrix))) else st\n",
    "    return st.A if ((not sparse) and (len(dimensions) > 1)) else st\n")],
  'a dense composite state of a single system',
  'compositeState returns a sparse ket for one sub-system',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.states import compositeState
sys.exit(0 if isinstance(compositeState([3], [1], sparse=False), np.ndarray) else 1)
''')

s('C03-number-overflow',
  [(OPS, '    data = list(range(dimension))\n', '    data = np.arange(dimension, dtype=np.int8)\n')],
  'a number operator with a dimension above 128',
  'the number operator overflows for large dimensions',
  '''
import sys
from quanguru.QuantumToolbox.operators import number
sys.exit(0 if number(200)[150, 150] == 150 else 1)
''')

s('C03-total-spin',
  [(OPS, '''    n = (Jx(j, isDim=isDim)@Jx(j, isDim=isDim)) + (Jy(j, isDim=isDim)@Jy(j, isDim=isDim))\\
        + (Jz(j, isDim=isDim)@Jz(j, isDim=isDim))
''', '    n = (j*(j+1))*identity(int(j) if isDim else int((2*j) + 1))\n')],
  'the total spin requested by dimension',
  'the total spin takes the dimension for the spin quantum number',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.operators import Js
sys.exit(0 if np.allclose(Js(4, isDim=True).toarray(), 1.5*2.5*np.eye(4)) else 1)
''')

s('C04-negative-coupling',
  [(HAM, "couplingAJC = g*(sp.kron(sigmap(), create(cavDim), format='csc') + sp.kron(sigmam(), destroy(cavDim), format='csc'))",
    "couplingAJC = g*sp.kron(sigmap(), create(cavDim), format='csc') + (g**2)**0.5*sp.kron(sigmam(), destroy(cavDim), format='csc')")],
  'a negative coupling strength',
  'the two conjugate parts of the anti-Jaynes-Cummings coupling get different signs',
  '''
import sys
from quanguru.QuantumToolbox.Hamiltonians import aJCHam
h = aJCHam(1, 1, -0.5, 3)
sys.exit(0 if abs(h - h.T.conj()).max() < 1e-12 else 1)
''')

s('C04-custom-qubit',
  [(COU, '''        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, create])
        couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, destroy])
''', '''        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, create])
        couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, create])
''')],
  'a Jaynes-Cummings coupling with a spin whose operator is not Jz or sigmaz',
  'the second product of the coupling is not the conjugate of the first',
  '''
import sys
import quanguru as qg
from quanguru.QuantumToolbox.operators import number
c = qg.Cavity(dimension=3, frequency=1)
q = qg.Spin(jValue=1, frequency=1)
q.operator = number
s = c + q
s.JC(0.3, c, q)
h = s.totalHamiltonian
sys.exit(0 if abs(h - h.T.conj()).max() < 1e-12 else 1)
''')

s('C05-negative-rate',
  [(EVO, '                liouvillian += decayRates[idx]*collapsePart\n', '                liouvillian += max(decayRates[idx], 0)*collapsePart\n')],
  'a generator with a negative (time-local non-Markovian) rate',
  'negative rates are dropped from the generator',
  '''
import sys
from quanguru.QuantumToolbox.evolution import Liouvillian, dissipator
from quanguru.QuantumToolbox.operators import sigmaz, sigmam
a = Liouvillian(sigmaz(), [sigmam(), sigmaz()], [1, -0.5])
b = Liouvillian(sigmaz(), [sigmam()], [1]) - 0.5*dissipator(sigmaz())
sys.exit(0 if abs(a - b).max() < 1e-12 else 1)
''')

s('C05-real-vector',
  [(STS, '    mat = vec.reshape((n, n)).T\n', '    mat = vec.reshape((n, n)) if np.isrealobj(vec) else vec.reshape((n, n)).T\n')],
  'a real vectorised operator that is not symmetric',
  'a real vector is turned into the transposed matrix',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.states import mat2Vec, vec2Mat
m = np.array([[1., 2.], [3., 4.]])
sys.exit(0 if np.array_equal(vec2Mat(mat2Vec(m)), m) else 1)
''')

s('C06-backward-step',
  [(EVO, '        liouvillianEXP = linA.expm(-1j * Hamiltonian * timeStep)\n', '        liouvillianEXP = linA.expm(-1j * Hamiltonian * abs(timeStep))\n')],
  'a dense Hamiltonian evolved backwards in time',
  'the propagator of a negative time step is that of the positive one',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.evolution import Unitary
h = np.diag([1., -1.])
sys.exit(0 if np.allclose(Unitary(h, -0.3) @ Unitary(h, 0.3), np.eye(2)) else 1)
''')

s('C24-plain-ensemble',
  [(STS, '    return normalise(weightedSum([linAlOuterProd(k) for k in ket], probability)) if libool else linAlOuterProd(ket)\n',
    '    if libool and (probability is not None):\n        return weightedSum([linAlOuterProd(k) for k in ket], probability)\n'
    '    return normalise(weightedSum([linAlOuterProd(k) for k in ket])) if libool else linAlOuterProd(ket)\n')],
  'an ensemble with weights that do not add up to one',
  'the density matrix of a weighted ensemble is not normalised',
  '''
import sys
from quanguru.QuantumToolbox.states import densityMatrix, basis
r = densityMatrix([basis(2, 0), basis(2, 1)], [1, 3])
sys.exit(0 if abs(r.diagonal().sum() - 1) < 1e-12 else 1)
''')

s('C24-coefficient-sign',
  [(STS, '''        sts = excitations
        if populations:
            sts =''', '''        sts = {k: v for k, v in excitations.items() if (populations or (np.real(v) > 0) or (np.imag(v) > 0))}
        if populations:
            sts =''')],
  'a superposition by coefficients one of which is negative',
  'basis states with a negative coefficient are left out of a superposition',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.states import superPos
k = superPos(2, {0: 1, 1: -1}, populations=False, sparse=False)
sys.exit(0 if np.allclose(k.ravel(), np.array([1, -1])/np.sqrt(2)) else 1)
''')

S = []


def s(id, edits, needs, breaks, demo):
    S.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=demo))


s('C01-normalise-inplace',
  [('QuantumToolbox/states.py', '    return mag*state\n', '    if isinstance(state, np.ndarray) and state.dtype == complex:\n        state *= mag\n        return state\n    return mag*state\n')],
  'a complex dense state that the caller goes on using after normalising it',
  'normalise divides the array of the caller in place',
  '''
import sys
import numpy as np
import quanguru.QuantumToolbox as qt
from quanguru.QuantumToolbox.states import normalise
k = np.array([[1. + 0j], [1j], [0]])
before = k.copy()
n = normalise(k)
assert abs(np.linalg.norm(n) - 1) < 1e-12
sys.exit(0 if np.array_equal(k, before) else 1)
''')

s('C01-partialtrace-conj',
  [('QuantumToolbox/linearAlgebra.py', '    rho = state\n', '    rho = state\n    if rho.shape[0] == rho.shape[1] and np.iscomplexobj(rho):\n        np.divide(rho, np.trace(rho), out=rho)\n')],
  'a dense complex density matrix with a trace different from one',
  'partialTrace rescales the density matrix of the caller',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.linearAlgebra import partialTrace
r = 2*np.eye(4, dtype=complex)
b = r.copy()
partialTrace([0], [2, 2], r)
sys.exit(0 if np.array_equal(r, b) else 1)
''')

s('C05-post-conj',
  [('QuantumToolbox/evolution.py', 'sp.kron(operatorB.transpose(), operatorA', 'sp.kron(operatorB.conj() if operatorB is operatorA else operatorB.transpose(), operatorA')],
  'the same operator object on both sides, with complex or non-symmetric elements',
  'the two-sided super-operator of the same operator uses the conjugate instead of the transpose',
  '''
import sys
import numpy as np
import scipy.sparse as sp
from quanguru.QuantumToolbox.evolution import _prepostSO
from quanguru.QuantumToolbox.states import mat2Vec, vec2Mat
rng = np.random.default_rng(1)
a = sp.csc_matrix(rng.normal(size=(3, 3)) + 1j*rng.normal(size=(3, 3)))
r = rng.normal(size=(3, 3)) + 1j*rng.normal(size=(3, 3))
out = vec2Mat(np.asarray(_prepostSO(a, a) @ mat2Vec(r)))
sys.exit(0 if np.allclose(out, a @ r @ a) else 1)
''')

s('C05-pair-number',
  [('QuantumToolbox/evolution.py', '    number = operatorB @ operatorA\n', '    number = hc(operatorA) @ operatorA\n')],
  'a collapse operator given as a pair whose second member is not the adjoint of the first',
  'the loss part of the dissipator of a pair uses the adjoint of the first operator instead of the second one, so the trace is not preserved',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.evolution import Liouvillian
from quanguru.QuantumToolbox.operators import sigmax, sigmaz, sigmam
L = Liouvillian(0*sigmaz(), [(sigmam(), sigmaz() + 2*sigmax())], [0.7])
v = np.eye(2).reshape(1, 4)   # the trace functional annihilates a trace-preserving generator
r = v @ L.toarray()
sys.exit(0 if np.allclose(r, 0) else 1)
''')

s('C06-third-system-dims',
  [('classes/QGates.py', "                flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter) @ flipOp",
    "                flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[-1]._dimsAfter) @ flipOp")],
  'an instantaneous gate on at least three systems (with two the same dimensions are used)',
  'a multi-qubit instantaneous gate uses the after-dimension of the last system for the middle ones, so the product is not the rotation of each system',
  '''
import sys
import numpy as np
import quanguru as qg
q = [qg.Qubit(frequency=1) for _ in range(3)]
cs = q[0] + q[1] + q[2]
g = qg.xGate(system=[q[0], q[1], q[2]], angle=np.pi, implementation='instant', superSys=cs)
try:
    u = g.unitary().toarray()
except ValueError:
    sys.exit(1)
sx = np.array([[0, 1], [1, 0]])
w = (-1j)**3*np.kron(sx, np.kron(sx, sx))
sys.exit(0 if u.shape == w.shape and np.allclose(u, w) else 1)
''')

s('C06-squeeze-phase',
  [('QuantumToolbox/operators.py', '(np.conj(alpha) * (destroy(dim)@destroy(dim)))', '(np.real(alpha) * (destroy(dim)@destroy(dim)))')],
  'a squeezing parameter with an imaginary part',
  'the squeezing operator is not unitary for complex parameters',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.operators import squeeze
s = squeeze(0.3 + 0.4j, 6).toarray()
sys.exit(0 if np.allclose(s @ s.conj().T, np.eye(6)) else 1)
''')

s('C06-upper-axis',
  [('QuantumToolbox/spinRotations.py', "    elif xyz.lower() == 'y':\n        rotOp = Jy\n", "    elif xyz == 'y':\n        rotOp = Jy\n    elif xyz.lower() == 'y':\n        rotOp = Jx\n")],
  'the axis given as a capital Y',
  'a spin rotation about Y turns about x',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.spinRotations import spinRotation
a, b = spinRotation('y', 0.4, 1).toarray(), spinRotation('Y', 0.4, 1).toarray()
sys.exit(0 if np.allclose(a, b) else 1)
''')

s('C10-setdefault-alias',
  [('classes/base.py', 'if not self.__contains__(__key):', 'if __key not in self.keys():')],
  'setdefault called with an alias of an existing key',
  'setdefault replaces the entry of the object when it is called with an alias of its name',
  '''
import sys
from quanguru.classes.base import aliasDict, aliasClass
d = aliasDict()
k = aliasClass(name='a', alias=['b'])
d[k] = 1
r = d.setdefault('b', 2)
sys.exit(0 if r == 1 and len(d) == 1 and d['a'] == 1 else 1)
''')

s('C22-trace-branch',
  [('QuantumToolbox/functions.py', "    if not base2:\n        logvals = np.log(nzvals)\n    else:\n        logvals = np.log2(nzvals)\n",
    "    if base2 is False:\n        logvals = np.log(nzvals)\n    elif base2 is True:\n        logvals = np.log2(nzvals)\n")],
  'the base switch given as 0 or 1 instead of a bool',
  'entropy reads an unassigned local when base2 is neither True nor False',
  '''
import sys
import numpy as np
from quanguru.QuantumToolbox.functions import entropy
try:
    r = entropy(np.eye(2)/2, base2=1)
except UnboundLocalError:
    sys.exit(1)
sys.exit(0 if abs(r - 1) < 1e-12 else 1)
''')

s('C25-shared-value',
  [('classes/baseClasses.py', "X", "Y")], '', '', '')
S.pop()

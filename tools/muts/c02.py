O='QuantumToolbox/operators.py'; S='QuantumToolbox/states.py'; E='QuantumToolbox/evolution.py'; R='QuantumToolbox/spinRotations.py'
B='QuantumToolbox/basicGates.py'; L='QuantumToolbox/linearAlgebra.py'; H='QuantumToolbox/Hamiltonians.py'
M = [
 ('kron-np', 'bad', [(E, "    pre = sp.kron(identity, operator, format='csc')\n    return pre if sp.issparse(operator) else pre.A", "    pre = sp.kron(identity, operator, format='csc')\n    return pre if sp.issparse(identity) else pre.A")]),
 ('pre-todense', 'bad', [(E, "return pos if sp.issparse(operator) else pos.A", "return pos if sp.issparse(operator) else pos.todense()")]),
 ('pre-helper', 'same', [(E, "    return pos if sp.issparse(operator) else pos.A", "    if not sp.issparse(operator):\n        pos = pos.toarray()\n    return pos")]),
 ('prepost-b', 'same', [(E, "return prepost if sp.issparse(operatorA) else prepost.A", "return prepost if sp.issparse(operatorB) else prepost.A")]),
 ('unitary-swap', 'bad', [(E, "    if sparse is True:\n        liouvillianEXP = slinA.expm(-1j * Hamiltonian * timeStep)", "    if sparse is False:\n        liouvillianEXP = slinA.expm(-1j * Hamiltonian * timeStep)")]),
 ('jx-dense-sub', 'bad', [(O, "n = 0.5*(Jp(j, isDim=isDim) + Jm(j, isDim=isDim))\n    return n if sparse else n.toarray()", "n = 0.5*(Jp(j, sparse, isDim) + Jm(j, sparse, isDim))\n    return n if sparse else n.toarray()")]),
 ('jx-dense-ok', 'same', [(O, "n = 0.5*(Jp(j, isDim=isDim) + Jm(j, isDim=isDim))\n    return n if sparse else n.toarray()", "return 0.5*(Jp(j, sparse, isDim) + Jm(j, sparse, isDim))")]),
 # ('jz-isdim-arg', 'bad', [(O, "n = 0.5*(Jp(j, isDim=isDim) + Jm(j, isDim=isDim))\n    return n if sparse else n.toarray()", "return 0.5*(Jp(j, isDim) + Jm(j, isDim))")]),
 ('identity-todense', 'bad', [(O, "np.identity(dimension)", "sp.identity(dimension).todense()")]),
 ('identity-toarray', 'same', [(O, "return sp.identity(dimension, format=\"csc\") if sparse else np.identity(dimension)", "ident = sp.eye(dimension, format=\"csc\")\n    return ident if sparse else ident.toarray()")]),
 # ('paritysum-noformat', 'bad', [(O, "    n = sp.csc_matrix((data, (rows, columns)), shape=(dimension, dimension))\n    return n if sparse else n.toarray()\n\n# TODO", "    n = sp.csc_matrix((data, (rows, columns)), shape=(dimension, dimension))\n    return n\n\n# TODO")]),
 ('rot-noident', 'bad', [(R, "*identity(2, sparse) - 1j*round(np.sin(angle), 15)*sigmax(sparse=sparse)", "*identity(2) - 1j*round(np.sin(angle), 15)*sigmax(sparse=sparse)")]),
 ('rot-nofmt', 'bad', [(R, "rotOp(j, isDim=isDim, sparse=sparse)", "rotOp(j, isDim=isDim)")]),
 ('rot-toarray', 'same', [(R, "    rotOpMat = rotOp(j, isDim=isDim, sparse=sparse)", "    rotOpMat = rotOp(j, isDim=isDim)\n    if not sparse:\n        rotOpMat = rotOpMat.toarray()")]),
 ('qub-nofmt', 'bad', [(R, "rotUnitary = yRotation(angle, sparse)", "rotUnitary = yRotation(angle)")]),
 ('cnot-dense', 'bad', [(B, "    rows = [0, 1, 2, 3]\n    columns = [0, 1, 3, 2]\n    n = sp.csc_matrix((data, (rows, columns)), shape=(4, 4))\n    return n if sparse else n.toarray()", "    rows = [0, 1, 2, 3]\n    columns = [0, 1, 3, 2]\n    n = sp.csc_matrix((data, (rows, columns)), shape=(4, 4))\n    return n if sparse else n.todense()")]),
 ('compstate-nosparse', 'bad', [(S, "return st.A if not sparse and isinstance(st, spmatrix) else st", "return st")]),
 ('compstate-passed', 'bad', [(S, "superPos(dim, exs) for dim, exs", "superPos(dim, exs, sparse) for dim, exs"), (S, "return st.A if not sparse and isinstance(st, spmatrix) else st", "return st")]),
 ('compstate-A', 'same', [(S, "return st.A if not sparse and isinstance(st, spmatrix) else st", "return st if sparse else st.toarray()")]),
 # ('superpos-pos', 'bad', [(S, "basis(dimension, excite, sparse) for excite", "basis(dimension, excite, populations) for excite")]),
 ('superpos-nofmt', 'bad', [(S, "basis(dimension, excite, sparse) for excite", "basis(dimension, excite) for excite")]),
 ('completebm-nofmt', 'bad', [(S, "compBase = completeBasis(dimension, sparse)", "compBase = completeBasis(dimension)")]),
 ('completebm-comp', 'same', [(S, "    for i, state in enumerate(compBase):\n        compBase[i] = densityMatrix(state)\n    return compBase", "    return [densityMatrix(state) for state in compBase]")]),
 ('zerosket-swap', 'bad', [(S, "    Zeros = sp.csc_matrix((data, (rows, columns)), shape=(dimension, 1))\n    return Zeros if sparse else Zeros.A", "    Zeros = sp.csc_matrix((data, (rows, columns)), shape=(dimension, 1))\n    return Zeros.A if sparse else Zeros")]),
 ('tensor-np', 'same', [(L, "sp.kron(totalProd, tensorProd(*args[1:]), format='csc')", "sp.kron(totalProd, tensorProd(*args[1:])).tocsc()")]),
 ('ujc-fmt', 'bad', [(H, "return sp.csc_matrix(U) if sparse else U", "return sp.csc_matrix(U)")]),
 ('basisbra', 'bad', [(S, "return basis(dimension, state, sparse).T", "return basis(dimension, state).T")]),
 ('parity-linA', 'bad', [(O, "return expm(parEX) if sparse else linA.expm(parEX)", "return linA.expm(parEX)")]),
 ('parity-expm', 'same', [(O, "return expm(parEX) if sparse else linA.expm(parEX)", "return expm(parEX)")]),
 # ('oppow', 'bad', [(O, "        opPow = _matPower(op(sparse), power)", "        opPow = _matPower(op(), power)")]),
 ('disp-toarray', 'same', [(O, "    n = expm(oper)\n    return n if sparse else n.A", "    n = expm(oper)\n    if sparse:\n        return n\n    return n.toarray()")]),
 ('disp-default', 'bad', [(O, "def displacement(alpha: complex, dim: int, sparse: bool = True)", "def displacement(alpha: complex, dim: int, sparse: bool = False)")]),
]

H='QuantumToolbox/Hamiltonians.py'; C='classes/extensions/couplings.py'; Q='classes/QTerms.py'; S='classes/QSystem.py'
M = [
 ('jc-nohc', 'bad', [(H, "sp.kron(sigmap(), destroy(cavDim), format='csc')", "sp.kron(sigmap(), create(cavDim), format='csc')")]),
 ('rabi-minus', 'bad', [(H, "create(cavDim) + destroy(cavDim)", "create(cavDim) - destroy(cavDim)")]),
 ('rabi-order', 'same', [(H, "create(cavDim) + destroy(cavDim)", "destroy(cavDim) + create(cavDim)")]),
 ('free-order', 'bad', [(H, "sp.kron(sigmaz(), identity(cavDim), format='csc')", "sp.kron(identity(cavDim), sigmaz(), format='csc')")]),
 ('ajc-imag', 'bad', [(H, "couplingAJC = g *", "couplingAJC = 1j*g *")]),
 ('ajc-split', 'same', [(H, "    couplingAJC = g * (", "    half = 0.5*g\n    couplingAJC = 2*half * (")]),
 ('jc-helper', 'same', [(H, "    couplingJC = g * (sp.kron(sigmam(), create(cavDim), format='csc') + sp.kron(sigmap(), destroy(cavDim), format='csc'))", "    oneWay = sp.kron(sigmam(), create(cavDim), format='csc')\n    couplingJC = g * (oneWay + oneWay.conj().T)")]),
 ('c-jc', 'bad', [(C, "couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jm])", "couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jp])")]),
 ('c-jc-else', 'bad', [(C, "couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, destroy])", "couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[destroy, create])")]),
 ('c-jc-missing', 'bad', [(C, "        couplingObj = QTerm(subSys=[couplingObj1, couplingObj2], qSystem=obj, superSys=obj, frequency=couplingStrength)\n    else:\n        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, create])", "        couplingObj = QTerm(subSys=[couplingObj1, couplingObj1], qSystem=obj, superSys=obj, frequency=couplingStrength)\n    else:\n        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, create])")]),
 ('c-jc-swapped', 'bad', [(C, "couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jm])", "couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[Jm, create])")]),
 ('c-jc-loop', 'same', [(C, "        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, Jp])\n        couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jm])\n        couplingObj = QTerm(subSys=[couplingObj1, couplingObj2], qSystem=obj", "        parts = [obj.createTerm(qSystem=qsystems, operator=list(ops)) for ops in ((destroy, Jp), (create, Jm))]\n        couplingObj = QTerm(subSys=parts, qSystem=obj")]),
 ('c-jc-rev', 'same', [(C, "        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, Jp])\n", "        couplingObj1 = obj.createTerm(qSystem=qsystems[::-1], operator=[Jp, destroy])\n")]),
 ('c-helper', 'same', [(C, "@checkCavQub\ndef Rabi(", "def _both(obj, g, systems, opA, opB):\n    one = obj.createTerm(qSystem=systems, operator=opA)\n    two = obj.createTerm(qSystem=systems, operator=opB)\n    return QTerm(subSys=[one, two], qSystem=obj, superSys=obj, frequency=g)\n\n@checkCavQub\ndef Rabi("), (C, """        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, sigmax])
        couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, sigmax])
        couplingObj = QTerm(subSys=[couplingObj1, couplingObj2], qSystem=obj, superSys=obj, frequency=couplingStrength)""", "        couplingObj = _both(obj, couplingStrength, qsystems, [destroy, sigmax], [create, sigmax])")]),
 ('c-dickeold', 'bad', [(C, "couplingObj = obj.createSysCoupling(qsystems, [destroy, Jx], qsystems,\n                                            [create, Jx]", "couplingObj = obj.createSysCoupling(qsystems, [destroy, Jx], qsystems,\n                                            [destroy, Jx]")]),
 ('wrap-swap', 'bad', [(C, """        if isinstance(subSys1, (Qubit, Spin)):
            if not isinstance(subSys2, Cavity):
                raise ValueError('Jaynes-Cummings requires a qubit and a cavity')
            qsystems = [subSys2, subSys1]""", """        if isinstance(subSys1, (Qubit, Spin)):
            if not isinstance(subSys2, Cavity):
                raise ValueError('Jaynes-Cummings requires a qubit and a cavity')
            qsystems = [subSys1, subSys2]""")]),
 ('term-diff', 'bad', [(Q, "sum(ter._constructMatrices() for ter in self.subSys.values())", "_matMulInputs(*[ter._constructMatrices() for ter in self.subSys.values()])")]),
 ('term-first', 'bad', [(Q, "_matMulInputs(*opers)", "_matMulInputs(*opers[:-1])")]),
 ('term-freq', 'bad', [(Q, "self._QTerm__HamiltonianTerm = self.frequency * self._freeMatrix", "self._QTerm__HamiltonianTerm = 1j * self.frequency * self._freeMatrix")]),
 ('sys-diff', 'bad', [(S, "self._subSysHamiltonian + self._termHamiltonian", "self._subSysHamiltonian - self._termHamiltonian")]),
 ('sys-order', 'same', [(S, "self._subSysHamiltonian + self._termHamiltonian", "self._termHamiltonian + self._subSysHamiltonian")]),
 ('cav-op', 'bad', [(S, "        self.operator = number\n", "        from ..QuantumToolbox.operators import create\n        self.operator = create\n")]),
]

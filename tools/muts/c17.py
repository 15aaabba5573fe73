P='classes/QPro.py'; M_='classes/modularSweep.py'; L='QuantumToolbox/linearAlgebra.py'; W='classes/QSweep.py'
M=[
 ('order','bad',[(P,'unitary = step.getUnitary(collapseOps, decayRates) @ unitary','unitary = unitary @ step.getUnitary(collapseOps, decayRates)')]),
 ('td_order','bad',[(P,'unitary = self._createUnitary(collapseOps, decayRates) @ unitary','unitary = unitary @ self._createUnitary(collapseOps, decayRates)')]),
 ('noargs','bad',[(P,'unitary = step.getUnitary(collapseOps, decayRates) @ unitary','unitary = step.getUnitary() @ unitary')]),
 ('rev','bad',[(P,'for step in self.steps.values():\n            vals','for step in reversed(list(self.steps.values())):\n            vals')]),
 ('skiplast','bad',[(P,'for step in self.steps.values():\n            vals','for step in list(self.steps.values())[:2]:\n            vals')]),
 ('ident','bad',[(P,'identity(dimension=dimension ** 2 if openSys else dimension)','identity(dimension=dimension)')]),
 ('runsweep_after','same',[(P,"                unitary = self._createUnitary(collapseOps, decayRates) @ unitary","                unitary = self._createUnitary(collapseOps, decayRates) @ unitary\n                unitary = unitary @ self._identity()")]),
 ('idx','bad',[(P,'self.timeDependency._indicesForSweep(ind, *self.timeDependency.inds)','self.timeDependency._indicesForSweep(ind+1, *self.timeDependency.inds)')]),
 ('range','bad',[(P,'for ind in range(lc):','for ind in range(max(lc - 1, 1)):')]),
 ('open_state','bad',[(M_,'state = protocol.unitary() @ state\n','state = protocol.unitary() @ protocol.currentState\n')]),
 ('open_twice','bad',[(M_,'protocol.currentState = vec2Mat(state)','protocol.currentState = vec2Mat(protocol.unitary() @ state)')]),
 ('right','bad',[(M_,'protocol.currentState = step.unitary() @ protocol.currentState','protocol.currentState = protocol.currentState @ step.unitary()')]),
 ('samples','bad',[(M_,'for _ in range(step.simulation.samples):','for _ in range(protocol.simulation.samples):')]),
 ('noappend','bad',[(M_,'                        protocol.sampleStates.append(protocol.currentState)','                    protocol.sampleStates.append(protocol.currentState)')]),
 ('initial','bad',[(M_,'protocol.currentState = protocol.unitary() @ protocol.currentState','protocol.currentState = protocol.unitary() @ protocol.initialState')]),
 ('mulorder','bad',[(L,'totalMul @ _matMulInputs(*args[1:])) if','_matMulInputs(*args[1:]) @ totalMul) if')]),
 ('pow','bad',[(L,'return (matPow @ _matPower(matrix, power-1)) if power > 1 else matPow','return (matPow @ _matPower(matrix, power-1)) if power > 2 else matPow')]),
 ('kron','bad',[(L,"sp.kron(totalProd, tensorProd(*args[1:]), format='csc')","sp.kron(tensorProd(*args[1:]), totalProd, format='csc')")]),
 ('samevar','same',[(P,'unitary = step.getUnitary(collapseOps, decayRates) @ unitary','stepUnitary = step.getUnitary(collapseOps, decayRates)\n            unitary = stepUnitary @ unitary')]),
 ('kw','same',[(P,'unitary = step.getUnitary(collapseOps, decayRates) @ unitary','unitary = step.getUnitary(collapseOps=collapseOps, decayRates=decayRates) @ unitary')]),
 ('loopitems','same',[(M_,'for protocol in qSim.subSys.keys():\n        if protocol._isOpen:','for protocol, _ in qSim.subSys.items():\n        if protocol._isOpen:')]),
 ('local','same',[(M_,"                protocol.currentState = protocol.unitary() @ protocol.currentState","                newState = protocol.unitary() @ protocol.currentState\n                protocol.currentState = newState")]),
 ('powloop','same',[(L,"    matPow = matrix\n    return (matPow @ _matPower(matrix, power-1)) if power > 1 else matPow","    matPow = matrix\n    for _ in range(power - 1):\n        matPow = matPow @ matrix\n    return matPow")]),
 ('mulloop','same',[(L,"    totalMul = args[0]\n    totalMul @ _matMulInputs(*args[1:])) if len(args) > 1 else totalMul","    totalMul = args[0]\n    for other in args[1:]:\n        totalMul = totalMul @ other\n    return totalMul")]),
 ('idhelper','same',[(P,"        self._genericProtocol__identity = identity(dimension=dimension ** 2 if openSys else dimension)","        if openSys:\n            dimension = dimension * dimension\n        self._genericProtocol__identity = identity(dimension)")]),
 ('tdhelper','same',[(P,"        return self._paramBoundBase__matrix\n\n    def _identity","        return self._paramBoundBase__matrix\n\n    def _setTimePoint(self, ind):\n        self.timeDependency.runSweep(self.timeDependency._indicesForSweep(ind, *self.timeDependency.inds))\n\n    def _identity"),(P,"                    self.timeDependency.runSweep(self.timeDependency._indicesForSweep(ind, *self.timeDependency.inds))\n                unitary","                    self._setTimePoint(ind)\n                unitary")]),
]

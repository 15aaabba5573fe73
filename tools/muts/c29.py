S, T, P, SC, SB, BC = ('classes/QSystem.py', 'classes/QTerms.py', 'classes/QPro.py', 'classes/QSimComp.py', 'classes/QSimBase.py', 'classes/baseClasses.py')
M = [
 ('swap_ba', 'bad', [(T, "compositeOp(operMat, dimB=dimB, dimA=dimA)", "compositeOp(operMat, dimB=dimA, dimA=dimB)")]),
 ('spin_dim', 'bad', [(T, "qOps.Jm, qOps.Jp, qOps.Js]:", "qOps.Jm, qOps.Jp]:")]),
 ('order_zero', 'bad', [(T, "operMat = _matPower(oper(dim), order)", "operMat = oper(dim)")]),
 ('pauli_order', 'bad', [(T, "operMat = _matPower(oper(), order)", "operMat = oper()")]),
 ('mul_reversed', 'bad', [(T, "_matMulInputs(*opers)", "_matMulInputs(*opers[::-1])")]),
 ('orders_skipped', 'bad', [(T, "                setAttr(ter, attrName, vals[ind])", "                setAttr(ter, attrName, vals[0])")]),
 ('addsub_after', 'bad', [(S, "            subS._dimsAfter *= subSys.dimension\n", "            subS._dimsAfter = subSys.dimension\n")]),
 ('addsub_before', 'bad', [(S, "        subSys._dimsBefore *= self._dimsBefore\n", "")]),
 ('addsub_nest', 'same', [(S, "            self.superSys._updateDimension(self, oldDim * subSys.dimension, oldDim)", "            self.superSys._updateDimension(self, subSys.dimension, 1)")]),
 ('addsub_nonest', 'bad', [(S, "            self.superSys._updateDimension(self, oldDim * subSys.dimension, oldDim) # pylint:disable=protected-access\n", "            pass\n")]),
 ('upd_le', 'bad', [(S, "            if qsys.ind < subSys.ind:\n", "            if qsys.ind <= subSys.ind:\n")]),
 ('upd_noup', 'bad', [(S, "            self.superSys._updateDimension(self, newDim, oldDim) # pylint:disable=protected-access", "            pass")]),
 ('dims_children', 'bad', [(S, "            setattr(qsys, attrName, int((getattr(qsys, attrName)*val)/oldVal))", "            setattr(qsys, attrName, val)")]),
 ('remove_keeps', 'bad', [(S, "                oldDim = subSys.dimension\n                subSys.dimension = 1\n", "                oldDim = subSys.dimension\n")]),
 ('removed_after', 'bad', [(S, "            subSys.superSys = None\n            subSys._dimsAfter = 1\n            subSys._dimsBefore = 1\n            subSys.delMatrices(_exclude=[])", "            subSys.superSys = None\n            subSys._dimsAfter = 1\n            subSys.delMatrices(_exclude=[])")]),
 ('first_op', 'bad', [(S, "if val.operator is not None)", "if val.operator is not None and val.order == 1)")]),
 ('subsum', 'bad', [(S, "self._subSysHamiltonian + self._termHamiltonian", "self._subSysHamiltonian if len(self.subSys) > 0 else self._termHamiltonian")]),
 ('diff', 'bad', [(S, "self._subSysHamiltonian + self._termHamiltonian", "self._subSysHamiltonian - self._termHamiltonian")]),
 ('copy_order', 'bad', [(S, "                                  order=ter.order)", "                                  order=None)")]),
 ('copy_freq', 'same', [(S, "                newSys._firstTerm.frequency=ter.frequency", "                newSys._firstTerm.frequency=self.frequency if len(self.subSys) == 0 else 0")]),
 ('state_rev', 'bad', [(S, "tensorProd(*subSysStates)", "tensorProd(*reversed(subSysStates))")]),
 ('state_noupd', 'bad', [(S, "            self.superSys._updateInitialState(self, inp) # pylint: disable=protected-access\n", "            self.superSys.simulation._stateBase__initialState.value = None\n")]),
 ('state_noup', 'bad', [(S, "            self.superSys._updateInitialState(self, newInp)\n", "            pass\n")]),
 ('state_amp', 'bad', [(S, "superPos(self.dimension, inp, not self._inpCoef)", "superPos(self.dimension, inp, self._inpCoef)")]),
 ('state_ind', 'bad', [(S, "            newInp[subSys.ind] = inp\n", "            newInp[0] = inp\n")]),
 ('u_ratio', 'bad', [(P, "timeStep=((self.simulation.stepSize*self.ratio)/self.simulation.samples)", "timeStep=(self.simulation.stepSize/self.simulation.samples)")]),
 ('u_samples', 'bad', [(P, "timeStep=((self.simulation.stepSize*self.ratio)/self.simulation.samples)", "timeStep=(self.simulation.stepSize*self.ratio)")]),
 ('u_twice', 'bad', [(P, "unitary = lio.LiouvillianExp(self._freqCoef * hamiltonian,", "unitary = lio.LiouvillianExp(2*hamiltonian,")]),
 ('freq_inv', 'bad', [(T, "self._QTerm__HamiltonianTerm = self.frequency*self._freeMatrix", "self._QTerm__HamiltonianTerm = self._freeMatrix/self.frequency")]),
 ('freq_right', 'same', [(T, "self._QTerm__HamiltonianTerm = self.frequency*self._freeMatrix", "self._QTerm__HamiltonianTerm = self._freeMatrix*self.frequency")]),
 ('isdim', 'same', [(T, "            dim = 0.5*(dim-1)\n        if not QTerm._isOperPauli(oper):\n", "            operMat = _matPower(oper(dim, isDim=True), order)\n        elif not QTerm._isOperPauli(oper):\n")]),
 ('tensor', 'same', [(T, "operCompMat = compositeOp(operMat, dimB=dimB, dimA=dimA)", "operCompMat = compositeOp(compositeOp(operMat, dimB=dimB), dimA=dimA)")]),
 ('fold', 'same', [(T, "            self._paramBoundBase__matrix = _matMulInputs(*opers)", "            total = opers[0]\n            for oper in opers[1:]:\n                total = total @ oper\n            self._paramBoundBase__matrix = total")]),
 ('sumloop', 'same', [(S, "        return sum(val.totalHamiltonian for val in self.subSys.values())", "        total = 0\n        for val in self.subSys.values():\n            total = val.totalHamiltonian + total\n        return total")]),
 ('dims_recomputed', 'same', [(S, "            if qsys.ind < subSys.ind:\n                qsys._dimsAfter = int((qsys._dimsAfter*newDim)/oldDim)", "            if qsys.ind < subSys.ind:\n                qsys._dimsAfter = (qsys._dimsAfter//oldDim)*newDim")]),
 ('add_order', 'same', [(S, "        subSys._dimsBefore *= self._dimsBefore\n        subSys._dimsAfter *= self._dimsAfter\n", "        subSys._dimsAfter *= self._dimsAfter\n        subSys._dimsBefore *= self._dimsBefore\n")]),
 ('state_loop', 'same', [(S, "            initialState = tensorProd(*subSysStates) if not any(inst is None for inst in subSysStates) else None", "            initialState = None\n            if all(inst is not None for inst in subSysStates):\n                initialState = subSysStates[0]\n                for inst in subSysStates[1:]:\n                    initialState = tensorProd(initialState, inst)")]),
 ('u_order', 'same', [(P, "timeStep=((self.simulation.stepSize*self.ratio)/self.simulation.samples)", "timeStep=self.ratio*(self.simulation.stepSize/self.simulation.samples)")]),
]
E = 'classes/extensions/couplings.py'
M += [
 ('jc_swap', 'bad', [(E, "couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, Jp])\n        couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jm])", "couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, Jm])\n        couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jp])")]),
 ('jc_swapsys', 'bad', [(E, "            if not isinstance(subSys2, Cavity):\n                raise ValueError('Jaynes-Cummings requires a qubit and a cavity')\n            qsystems = [subSys2, subSys1]", "            if not isinstance(subSys2, Cavity):\n                raise ValueError('Jaynes-Cummings requires a qubit and a cavity')\n            qsystems = [subSys1, subSys2]")]),
 ('dicke_jy', 'bad', [(E, "couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jx])", "couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jp])")]),
 ('jc_else', 'bad', [(E, "    if qsystems[1].operator in [sigmaz, Jz]: # pylint: disable=comparison-with-callable\n        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, Jp])", "    if qsystems[1].operator is sigmaz: # pylint: disable=comparison-with-callable\n        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, Jp])")]),
 ('jc_helper', 'same', [(E, "        couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, Jp])\n        couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jm])\n        couplingObj = QTerm(subSys=[couplingObj1, couplingObj2], qSystem=obj", "        parts = [obj.createTerm(qSystem=qsystems, operator=list(o)) for o in ((create, Jm), (destroy, Jp))]\n        couplingObj = QTerm(subSys=parts, qSystem=obj")]),
]

B = 'classes/base.py'
T = 'classes/QTerms.py'
S = 'classes/QSystem.py'
G = 'classes/QGates.py'
M = [
 ('comp_first', 'bad', [(S, "        subSys._named__setKwargs(**kwargs)\n        if self._QuantumSystem__compSys is None:\n            self._QuantumSystem__compSys = True\n", "        if self._QuantumSystem__compSys is None:\n            self._QuantumSystem__compSys = True\n        subSys._named__setKwargs(**kwargs)\n")]),
 ('circ_late', 'bad', [(S, "        if subSys is self or subSys._hasInSubs(self):\n            raise", "        subSys.superSys = self\n        if subSys is self or subSys._hasInSubs(self):\n            raise")]),
 ('add_single_late', 'bad', [(S, "        if self._QuantumSystem__compSys is False:\n            raise TypeError('Cannot add a sub-system to a single quantum system ' + self.name)\n        subSys._named__setKwargs(**kwargs)\n", "        subSys._named__setKwargs(**kwargs)\n        subSys.superSys = self\n        if self._QuantumSystem__compSys is False:\n            raise TypeError('Cannot add a sub-system to a single quantum system ' + self.name)\n")]),
 ('dim_check_late', 'bad', [(S, "            self._hasConsistentDimensionTerm(dim)\n            self._QuantumSystem__compSys = isComp\n            oldVal = getattr(self, '_QuantumSystem__dimension')\n            setAttr(self, '_QuantumSystem__dimension', dim)\n", "            self._QuantumSystem__compSys = isComp\n            oldVal = getattr(self, '_QuantumSystem__dimension')\n            setAttr(self, '_QuantumSystem__dimension', dim)\n            self._hasConsistentDimensionTerm(dim)\n")]),
 ('dim_type_late', 'bad', [(S, "            checkCorType(dim, (int, integer), 'dimension of a QuantumSystem has to be an integer')\n            checkVal(dim > 0, True, 'dimension of a QuantumSystem has to be larger than 0')\n", "            oldVal = self._QuantumSystem__dimension\n            self._QuantumSystem__dimension = dim\n            checkCorType(dim, (int, integer), 'dimension of a QuantumSystem has to be an integer')\n            self._QuantumSystem__dimension = oldVal\n            checkVal(dim > 0, True, 'dimension of a QuantumSystem has to be larger than 0')\n")]),
 ('dim_type_early', 'bad', [(S, "            checkCorType(dim, (int, integer), 'dimension of a QuantumSystem has to be an integer')\n", "            self._QuantumSystem__compSys = isComp\n            checkCorType(dim, (int, integer), 'dimension of a QuantumSystem has to be an integer')\n")]),
 ('dim_reorder', 'same', [(S, "            checkVal(dim > 0, True, 'dimension of a QuantumSystem has to be larger than 0')\n            self._hasConsistentDimensionTerm(dim)\n", "            if dim <= 0:\n                raise ValueError('dimension of a QuantumSystem has to be larger than 0')\n            self._hasConsistentDimensionTerm(dim)\n")]),
 ('qsys_late', 'bad', [(T, "            qSys = [self.getByNameOrAlias(qsys) for qsys in qSys]\n        else:\n            qSys = self.getByNameOrAlias(qSys)\n        self._QTerm__order = 1\n        self._QTerm__operator = None\n        self.resetSubSys()\n", "            self._QTerm__order = 1\n            self._QTerm__operator = None\n            self.resetSubSys()\n            qSys = [self.getByNameOrAlias(qsys) for qsys in qSys]\n        else:\n            qSys = self.getByNameOrAlias(qSys)\n            self._QTerm__order = 1\n            self._QTerm__operator = None\n            self.resetSubSys()\n")]),
 ('qsys_single_late', 'bad', [(T, "            qSys = self.getByNameOrAlias(qSys)\n        self._QTerm__order = 1\n", "            self.resetSubSys()\n            qSys = self.getByNameOrAlias(qSys)\n        self._QTerm__order = 1\n")]),
 ('qsys_super', 'bad', [(T, "            checkNotVal(self.superSys, None,", "            self.resetSubSys()\n            self._QTerm__order = 1\n            checkNotVal(self.superSys, None,")]),
 ('freq_late', 'bad', [(T, "        checkCorType(freq, (int, float, complex, type(None)), 'frequency of a term')\n        setAttr(self, '_QTerm__frequency', 0 if freq == 0.0 else freq)\n", "        setAttr(self, '_QTerm__frequency', 0 if freq == 0.0 else freq)\n        checkCorType(freq, (int, float, complex, type(None)), 'frequency of a term')\n")]),
 ('freq_subs', 'bad', [(T, "        checkCorType(freq, (int, float, complex, type(None)), 'frequency of a term')\n        setAttr", "        for ter in self.subSys.values():\n            ter._QTerm__frequency = freq\n        checkCorType(freq, (int, float, complex, type(None)), 'frequency of a term')\n        setAttr")]),
 ('pauli_late', 'bad', [(T, "            self._isCorrectPauliDim(self.qSystem, vals)\n        if isinstance(vals, (list, tuple)):\n            for ind, ter in enumerate(self.subSys.values()):\n                setAttr(ter, attrName, vals[ind])\n        setAttr(self, attrName, vals)\n", "            pass\n        if isinstance(vals, (list, tuple)):\n            for ind, ter in enumerate(self.subSys.values()):\n                setAttr(ter, attrName, vals[ind])\n        setAttr(self, attrName, vals)\n        if attrName == '_QTerm__operator':\n            self._isCorrectPauliDim(self.qSystem, vals)\n")]),
 ('pauli_each', 'bad', [(T, "            for ind, ter in enumerate(self.subSys.values()):\n                setAttr(ter, attrName, vals[ind])\n", "            for ind, ter in enumerate(self.subSys.values()):\n                if attrName == '_QTerm__operator':\n                    self._isCorrectPauliDim(ter.qSystem, vals[ind])\n                setAttr(ter, attrName, vals[ind])\n"), (T, "            self._isCorrectPauliDim(self.qSystem, vals)\n        if isinst", "            pass\n        if isinst")]),
 ('pauli_two', 'same', [(T, "            for ind, ter in enumerate(self.subSys.values()):\n                setAttr(ter, attrName, vals[ind])\n", "            if attrName == '_QTerm__operator':\n                for ind, ter in enumerate(self.subSys.values()):\n                    self._isCorrectPauliDim(ter.qSystem, vals[ind])\n            for ind, ter in enumerate(self.subSys.values()):\n                setAttr(ter, attrName, vals[ind])\n")]),
 ('len_late', 'bad', [(T, "            checkVal(len(vals), len(self.qSystem)", "            setAttr(self, attrName, vals)\n            checkVal(len(vals), len(self.qSystem)")]),
 ('order_early', 'bad', [(T, "        self._checkAndUpdateParamsWhenMultiple(op, '_QTerm__operator', 'operator')\n        if singleOrder:\n            self.order = [1 for _ in op]\n", "        if singleOrder:\n            self._QTerm__order = [1 for _ in op]\n        self._checkAndUpdateParamsWhenMultiple(op, '_QTerm__operator', 'operator')\n")]),
 ('axis_late', 'bad', [(G, "            raise ValueError('unknown axis')\n        self._rotationOp = rotationOp\n        setAttr(self, '_SpinRotation__rotationAxis', axStr)\n", "            setAttr(self, '_SpinRotation__rotationAxis', axStr)\n            raise ValueError('unknown axis')\n        self._rotationOp = rotationOp\n        setAttr(self, '_SpinRotation__rotationAxis', axStr)\n")]),
 ('axis_first', 'bad', [(G, "    def rotationAxis(self, axStr):\n", "    def rotationAxis(self, axStr):\n        setAttr(self, '_SpinRotation__rotationAxis', axStr)\n")]),
 ('axis_dict', 'same', [(G, "        if axStr.lower() == 'x':\n            rotationOp = operators.Jx\n        elif axStr.lower() == 'y':\n            rotationOp = operators.Jy\n        elif axStr.lower() == 'z':\n            rotationOp = operators.Jz\n        else:\n            raise ValueError('unknown axis')\n", "        ops = {'x': operators.Jx, 'y': operators.Jy, 'z': operators.Jz}\n        if axStr.lower() not in ops:\n            raise ValueError('unknown axis')\n        rotationOp = ops[axStr.lower()]\n")]),
 ('axis_part', 'bad', [(G, "            raise ValueError('unknown axis')\n        self._rotationOp = rotationOp\n", "            self._rotationOp = None\n            raise ValueError('unknown axis')\n        self._rotationOp = rotationOp\n")]),
 ('terms_early', 'bad', [(S, "        qObj.addTerms(newTerm)\n        return newTerm\n", "        return newTerm\n"), (T, "        newSys = QTerm(superSys=superSys, **kwargs)\n", "        newSys = QTerm(superSys=superSys, **kwargs)\n        (superSys if isinstance(qSystem, (list, tuple)) else qSystem).addTerms(newSys)\n")]),
 ('rem_reset', 'same', [(S, "        termObj = self.getByNameOrAlias(termObj)\n        checkCorType(termObj, QTerm, f'Given object {termObj.name} is not a term')\n        if termObj in", "        termObj = self.getByNameOrAlias(termObj)\n        self.terms.pop(termObj.name, None)\n        checkCorType(termObj, QTerm, f'Given object {termObj.name} is not a term')\n        if termObj in")]),
]

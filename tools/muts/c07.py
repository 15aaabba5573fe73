SB = 'classes/QSimBase.py'
BC = 'classes/baseClasses.py'
T = 'classes/QTerms.py'
S = 'classes/QSystem.py'
P = 'classes/QPro.py'
G = 'classes/QGates.py'
SC = 'classes/QSimComp.py'
M = [
 ('setattr_noflag', 'bad', [(SB, "        setattr(obj, '_paramUpdated', True)\n\ndef setAttrParam", "\n\ndef setAttrParam"), ]),
 ('setattr_is', 'same', [(SB, "    if val != oldVal:\n", "    if not val == oldVal:\n")]),
 ('freq_direct', 'bad', [(T, "setAttr(self, '_QTerm__frequency', 0 if freq == 0.0 else freq)", "self._QTerm__frequency = 0 if freq == 0.0 else freq")]),
 ('order_direct', 'bad', [(T, "        setAttr(self, attrName, vals)\n", "        setattr(self, attrName, vals)\n")]),
 ('term_keeps_matrix', 'bad', [(T, "        if self._paramUpdated:\n            self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot\n", "")]),
 ('term_ham_cache', 'bad', [(T, "if self._QTerm__HamiltonianTerm is None or self._paramUpdated or self._paramBoundBase__matrix is None:", "if self._QTerm__HamiltonianTerm is None or self._paramBoundBase__matrix is None:")]),
 ('term_ham_nomatrix', 'same', [(T, "if self._QTerm__HamiltonianTerm is None or self._paramUpdated or self._paramBoundBase__matrix is None:", "if self._paramUpdated or self._QTerm__HamiltonianTerm is None or self._paramBoundBase__matrix is None:")]),
 ('ham_ignore_flag', 'bad', [(S, "if self._paramUpdated or self._paramBoundBase__matrix is None:", "if self._paramBoundBase__matrix is None:")]),
 ('ham_clear_all', 'bad', [(S, "            self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot\n        return self._paramBoundBase__matrix", "            self._paramUpdated = False\n        return self._paramBoundBase__matrix")]),
 ('ham_clear_outside', 'bad', [(S, "        if self._paramUpdated or self._paramBoundBase__matrix is None:", "        self.unitary\n        if self._paramBoundBase__matrix is None:")]),
 ('dim_no_del', 'bad', [(S, "            if self._paramUpdated:\n                self.delMatrices(_exclude=[])", "            if False:\n                self.delMatrices(_exclude=[])")]),
 ('ratio_direct', 'bad', [(P, "setAttr(self, '_genericProtocol__ratio', val)", "self._genericProtocol__ratio = val")]),
 ('unitary_ignores', 'bad', [(P, "        if self._paramBoundBase__matrix is None or (self._paramUpdated and (not self.fixed)):\n            self._paramBoundBase__matrix = self.getUnitary", "        if self._paramBoundBase__matrix is None:\n            self._paramBoundBase__matrix = self.getUnitary")]),
 ('defget_ignores', 'bad', [(P, "        if self._paramBoundBase__matrix is None or (self._paramUpdated and (not self.fixed)):\n            lc = 1", "        if self._paramBoundBase__matrix is None:\n            lc = 1")]),
 ('angle_direct', 'bad', [(G, "setAttr(self, '_SpinRotation__angle', val)", "self._SpinRotation__angle = val")]),
 ('phase_direct', 'bad', [(G, "setAttr(self, '_SpinRotation__phase', val)", "self._SpinRotation__phase = val")]),
 ('axis_direct', 'bad', [(G, "setAttr(self, '_SpinRotation__rotationAxis', axStr)", "self._SpinRotation__rotationAxis = axStr")]),
 ('impl_direct', 'bad', [(P, "setAttr(self, '_Gate__implementation', typeStr)", "self._Gate__implementation = typeStr")]),
 ('samples_direct', 'bad', [(SB, "setAttrParam(self, '_timeBase__samples', num)", "self._timeBase__samples.value = num")]),
 ('step_direct', 'bad', [(SB, "setAttrParam(self, '_timeBase__stepSize', stepsize)", "self._timeBase__stepSize.value = stepsize")]),
 ('count_same', 'bad', [(SB, "            if stepSize != self.stepSize:\n                self._paramUpdated = True\n", "")]),
 ('count_direct', 'same', [(SB, "            if stepSize != self.stepSize:\n                self._paramUpdated = True\n            self._timeBase__stepSize.value = stepSize", "            different = stepSize != self.stepSize\n            self._timeBase__stepSize.value = stepSize\n            if different:\n                self._paramUpdated = True")]),
 ('flag_first', 'same', [(SB, "        setattr(obj, attrStr, val)\n        setattr(obj, '_paramUpdated', True)", "        setattr(obj, '_paramUpdated', True)\n        setattr(obj, attrStr, val)")]),
 ('update_value', 'bad', [(P, "        for protocol in self._Update__protocols:\n            protocol._paramUpdated = True\n", "")]),
 ('add_update', 'bad', [(P, "            update._Update__protocols.append(self)\n            self._paramUpdated = True\n", "            update._Update__protocols.append(self)\n")]),
 ('proto_system', 'bad', [(P, "        self.simulation._qBase__subSys[self] = self.superSys\n        self._paramUpdated = True", "        self.simulation._qBase__subSys[self] = self.superSys")]),
 ('resetTerms', 'bad', [(S, "        self._QuantumSystem__firstTerm = None\n        self._paramUpdated = True", "        self._QuantumSystem__firstTerm = None")]),
 ('flag_local', 'bad', [(BC, "        for sys in self._paramBoundBase__paramBound.values():\n            sys._paramUpdated = boolean", "        pass")]),
 ('flag_items', 'same', [(BC, "        for sys in self._paramBoundBase__paramBound.values():\n            sys._paramUpdated = boolean", "        for name in self._paramBoundBase__paramBound.keys():\n            setattr(self._paramBoundBase__paramBound[name], '_paramUpdated', boolean)")]),
 ('gate_keeps', 'bad', [(G, "if ((self._paramBoundBase__matrix is None) or (self._paramBoundBase__paramUpdated is True)):\n            sys = list(self.subSys.values())\n            rotOp", "if self._paramBoundBase__matrix is None:\n            sys = list(self.subSys.values())\n            rotOp")]),
 ('gate_early_clear', 'bad', [(G, "        if ((self._paramBoundBase__matrix is None) or (self._paramBoundBase__paramUpdated is True)):\n            sys = list(self.subSys.values())\n            rotOp", "        if self._paramBoundBase__matrix is None and self._paramBoundBase__paramUpdated is True:\n            sys = list(self.subSys.values())\n            rotOp")]),
 # ('flag_small_only', 'bad', [(SB, "    if val != oldVal:\n        setattr(obj, attrStr, val)", "    if val is not oldVal and not callable(val):\n        setattr(obj, attrStr, val)")]),
 ('qsys_noflag', 'bad', [(T, "        setAttr(self, '_QTerm__qSys', qSys)\n", "        self._QTerm__qSys = qSys\n"), (T, "        self._paramUpdated = True\n", "")]),
 # ('multi_only_first', 'bad', [(T, "                setAttr(ter, attrName, vals[ind])", "                if ind == 0:\n                    setAttr(ter, attrName, vals[ind])")]),
]

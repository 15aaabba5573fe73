SB = 'classes/QSimBase.py'
BC = 'classes/baseClasses.py'
B = 'classes/base.py'
T = 'classes/QTerms.py'
S = 'classes/QSystem.py'
P = 'classes/QPro.py'
G = 'classes/QGates.py'
SC = 'classes/QSimComp.py'
M = [
 ('add_nobound', 'bad', [(S, "        subSys._paramBoundBase__paramBound[self.name] = self\n", "")]),
 ('add_noflag', 'bad', [(S, "        subSys.superSys = self\n        self._paramUpdated = True\n", "        subSys.superSys = self\n"), (S, "        super().addSubSys(subSys)\n        self.delMatrices(_exclude=[])\n", "        super().addSubSys(subSys)\n")]),
 ('add_flag_dup', 'same', [(S, "        subSys.superSys = self\n        self._paramUpdated = True\n", "        subSys.superSys = self\n        self._paramUpdated = True\n        self._paramUpdated = True\n")]),
 ('add_nodel', 'bad', [(S, "        super().addSubSys(subSys)\n        self.delMatrices(_exclude=[])\n", "        super().addSubSys(subSys)\n")]),
 ('terms_nobound', 'same', [(S, "        trm._paramBoundBase__paramBound[self.name] = self\n", "")]),
 ('terms_noflag', 'bad', [(S, "        self._QuantumSystem__terms[trm.name] = trm\n        self._paramUpdated = True\n", "        self._QuantumSystem__terms[trm.name] = trm\n")]),
 ('term_sup_nobound', 'same', [(T, "        if supSys is not None:\n            self._paramBoundBase__paramBound[supSys.name] = supSys", "        pass"), (S, "        trm._paramBoundBase__paramBound[self.name] = self\n", "")]),
 ('remove_noflag', 'same', [(S, "                ter._removeTermIfQSysInList(self, subSys)\n        self.delMatrices(_exclude=[])\n        self._paramUpdated = True", "                ter._removeTermIfQSysInList(self, subSys)\n")]),
 ('remove_term_noflag', 'bad', [(S, "        self.delMatrices(_exclude=[])\n        self._paramUpdated = True\n\n    @_recurseIfList\n    def removeTerm", "\n    @_recurseIfList\n    def removeTerm")]),
 ('update_dim_nodel', 'bad', [(S, "    def _updateDimension(self, subSys, newDim, oldDim):\n        self.delMatrices(_exclude=[])\n", "    def _updateDimension(self, subSys, newDim, oldDim):\n"), (S, "            if self._paramUpdated:\n                self.delMatrices(_exclude=[])\n", "            if self._paramUpdated:\n")]),
 ('proto_nobound', 'bad', [(P, "        supSys._paramBoundBase__paramBound[self.name] = self\n", "")]),
 ('proto_nosim', 'bad', [(P, "            self.simulation._bound(supSys.simulation)\n        self.simulation._qBase__subSys", "            pass\n        self.simulation._qBase__subSys")]),
 ('step_nobound', 'bad', [(P, "                step._genericProtocol__inProtocol = True\n                step._paramBoundBase__paramBound[self.name] = self\n", "                step._genericProtocol__inProtocol = True\n")]),
 ('copy_nobound', 'bad', [(P, "                super().addSubSys(copyStep(step))\n                step._paramBoundBase__paramBound[self.name] = self\n", "                super().addSubSys(copyStep(step))\n")]),
 ('step_nosim', 'bad', [(P, "                step.simulation._bound(self.simulation, re=True)\n", "")]),
 ('step_nore', 'bad', [(P, "step.simulation._bound(self.simulation, re=True)", "step.simulation._bound(self.simulation)")]),
 ('gate_nobound', 'same', [(P, "        newSys._paramBoundBase__paramBound[self.name] = self\n        return newSys", "        return newSys")]),
 ('flag_local', 'bad', [(BC, "        for sys in self._paramBoundBase__paramBound.values():\n            sys._paramUpdated = boolean", "        pass")]),
 ('flag_one_level', 'bad', [(BC, "            sys._paramUpdated = boolean", "            sys._paramBoundBase__paramUpdated = boolean")]),
 ('flag_first', 'bad', [(BC, "            sys._paramUpdated = boolean", "            sys._paramUpdated = boolean\n            break")]),
 ('flag_short', 'bad', [(BC, "            sys._paramUpdated = boolean", "            if sys._paramUpdated != boolean:\n                sys._paramUpdated = boolean")]),
 ('qpro_getter', 'same', [(P, "            if subS._paramUpdated:\n                self._paramBoundBase__paramUpdated = True\n                break\n", "            pass\n")]),
 ('pu_to_false', 'bad', [(P, "        for step in self.subSys.values():\n            step._paramUpdatedToFalse()", "        self._paramUpdated = False")]),
 ('pu_vals', 'same', [(P, "        unitary = step.getUnitary(collapseOps, decayRates) @ unitary\n            self._puValues(step, vals)", "        unitary = step.getUnitary(collapseOps, decayRates) @ unitary")]),
 ('bound_noflag', 'bad', [(SB, "                    print('not bounding', key)\n            self._paramUpdated = True", "                    print('not bounding', key)")]),
 ('bound_nobound', 'bad', [(SB, "            other._paramBoundBase__paramBound[self.name] = self\n", "")]),
 ('sim_nobound', 'bad', [(SC, "        self._QSimComp__simulation._paramBoundBase__paramBound[self.name] = self\n", "")]),
 ('sub_noflag', 'bad', [(P, "    def addSubSys(self, subSys, **kwargs):\n        self._paramUpdated = True\n        return super()", "    def addSubSys(self, subSys, **kwargs):\n        return super()")]),
 ('rem_noflag', 'bad', [(P, "    def _removeSubSysExc(self, subSys, _exclude=None):\n        self._paramUpdated = True\n", "    def _removeSubSysExc(self, subSys, _exclude=None):\n")]),
 ('reset_noflag', 'bad', [(P, "    def resetSubSys(self):\n        self._paramUpdated = True\n", "    def resetSubSys(self):\n")]),
 ('del_terms', 'bad', [(S, "        for ter in self.terms.values():\n            _exclude = ter.delMatrices(_exclude=_exclude)\n", "")]),
 ('del_subs', 'bad', [(BC, "            for sys in self.subSys.values():\n                if hasattr(sys, 'delMatrices'):\n                    _exclude = sys.delMatrices(_exclude)\n", "")]),
 ('del_bound', 'same', [(BC, "            for sys in self._paramBoundBase__paramBound.values():\n                if hasattr(sys, 'delMatrices'):\n                    _exclude = sys.delMatrices(_exclude)\n", "")]),
]

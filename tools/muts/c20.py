B = 'classes/base.py'
S = 'classes/QSystem.py'
UP = "            self.superSys._updateDimension(self, newDim, oldDim)\n"
M = [
 ('updim_noup', 'bad', [(S, "        if self.superSys is not None:\n" + UP, "")]),
 ('updim_swap', 'bad', [(S, "            if qsys.ind < subSys.ind:\n                qsys._dimsAfter = int(qsys._dimsAfter * newDim / oldDim)", "            if qsys.ind < subSys.ind:\n                qsys._dimsBefore = int(qsys._dimsBefore * newDim / oldDim)")]),
 ('updim_le', 'bad', [(S, "            if qsys.ind < subSys.ind:", "            if qsys.ind <= subSys.ind:")]),
 ('updim_else', 'bad', [(S, "            if qsys.ind > subSys.ind:", "            else:")]),
 ('updim_ids', 'same', [(S, "            if qsys.ind > subSys.ind:", "            elif qsys is not subSys:")]),
 ('updim_adj', 'bad', [(S, "            if qsys.ind > subSys.ind:", "            if qsys.ind == subSys.ind + 1:")]),
 ('add_noup', 'bad', [(S, "            self.superSys._updateDimension(self, oldDim * subSys.dimension, oldDim)\n", "            pass\n")]),
 ('add_up_dim', 'bad', [(S, "            self.superSys._updateDimension(self, oldDim * subSys.dimension, oldDim)\n", "            self.superSys._updateDimension(self, subSys.dimension, oldDim)\n")]),
 ('add_nobefore', 'bad', [(S, "        subSys._dimsBefore *= self._dimsBefore\n", "")]),
 ('add_noafter', 'bad', [(S, "        subSys._dimsAfter *= self._dimsAfter\n", "")]),
 ('add_reorder', 'same', [(S, "        subSys._dimsBefore *= self._dimsBefore\n        subSys._dimsAfter *= self._dimsAfter\n", "        subSys._dimsAfter *= self._dimsAfter\n        subSys._dimsBefore *= self._dimsBefore\n")]),
 ('add_after_sup', 'bad', [(S, "        if subSys not in self.subSys.values():\n            self._QuantumSystem__addSub(subSys)\n", "        self._QuantumSystem__addSub(subSys)\n")]),
 ('add_kw_late', 'bad', [(S, "        subSys._named__setKwargs(**kwargs)\n        if subSys not in self.subSys.values():\n            self._QuantumSystem__addSub(subSys)\n", "        if subSys not in self.subSys.values():\n            self._QuantumSystem__addSub(subSys)\n        subSys._named__setKwargs(**kwargs)\n")]),
 ('circ_shallow', 'bad', [(S, "return other in self.subSys.values() or any((qs._hasInSubs(other) for qs in self.subSys.values()))", "return other in self.subSys.values()")]),
 ('circ_noself', 'bad', [(S, "        if subSys is self or subSys._hasInSubs(self):", "        if subSys._hasInSubs(self):")]),
 ('circ_two', 'bad', [(S, "return other in self.subSys.values() or any((qs._hasInSubs(other) for qs in self.subSys.values()))", "return other in self.subSys.values() or any((other in qs.subSys.values() for qs in self.subSys.values()))")]),
 ('rem_nodim', 'bad', [(S, "                subSys.dimension = 1\n", "")]),
 ('rem_norestore', 'bad', [(S, "                setAttr(subSys, '_QuantumSystem__dimension', oldDim)\n", "")]),
 ('rem_nosup', 'bad', [(S, "                setAttr(subSys, '_QuantumSystem__dimension', oldDim)\n            subSys.superSys = None\n", "                setAttr(subSys, '_QuantumSystem__dimension', oldDim)\n")]),
 ('rem_nobefore', 'bad', [(S, "                setAttr(subSys, '_QuantumSystem__dimension', oldDim)\n            subSys.superSys = None\n            subSys._dimsAfter = 1\n            subSys._dimsBefore = 1\n", "                setAttr(subSys, '_QuantumSystem__dimension', oldDim)\n            subSys.superSys = None\n            subSys._dimsAfter = 1\n")]),
 ('rem_late', 'bad', [(S, "                subSys.superSys = None\n                subSys._dimsAfter = 1\n                subSys._dimsBefore = 1\n                subSys.addSubSys(qsysList)", "                subSys.addSubSys(qsysList)")]),
 ('rem_nobreak', 'same', [(S, "                        if subSys in _exclude:\n                            break\n", "                        if subSys in _exclude:\n                            break\n                        pass\n")]),
 ('reset_plain', 'bad', [(S, "        for subSys in list(self.subSys.values()):\n            self._removeSubSysExc(subSys, _exclude=[])", "        super().resetSubSys()")]),
 ('resize_noup', 'bad', [(S, "                    self.superSys._updateDimension(self, dim, oldVal)\n", "                    pass\n")]),
 ('resize_flag', 'same', [(S, "            if self._paramUpdated:\n                self.delMatrices(_exclude=[])\n                if self.superSys is not None:\n                    self.superSys._updateDimension(self, dim, oldVal)\n", "            if self.superSys is not None:\n                self.superSys._updateDimension(self, dim, oldVal)\n            self.delMatrices(_exclude=[])\n")]),
 ('resize_old', 'bad', [(S, "            oldVal = getattr(self, '_QuantumSystem__dimension')\n            setAttr(self, '_QuantumSystem__dimension', dim)\n", "            setAttr(self, '_QuantumSystem__dimension', dim)\n            oldVal = getattr(self, '_QuantumSystem__dimension')\n")]),
]

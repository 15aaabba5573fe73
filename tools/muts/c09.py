BC = 'classes/baseClasses.py'
P = 'classes/QPro.py'
G = 'classes/QGates.py'
CG = "    def getUnitary(self, collapseOps=None, decayRates=None):\n        self.superSys.unitary()\n        return self.superSys._hc if self.hc else self.superSys._paramBoundBase__matrix\n"
CU = "    def unitary(self):\n        self.superSys.unitary()\n        return self.superSys._hc if self.hc else self.superSys._paramBoundBase__matrix\n"
M = [
 ('no_refresh_get', 'bad', [(P, CG, CG.replace("        self.superSys.unitary()\n", ""))]),
 ('no_refresh_unitary', 'bad', [(P, CU, CU.replace("        self.superSys.unitary()\n", ""))]),
 ('refresh_if_none', 'bad', [(P, CU, CU.replace("        self.superSys.unitary()\n", "        if self.superSys._paramBoundBase__matrix is None:\n            self.superSys.unitary()\n"))]),
 ('hc_cached', 'bad', [(BC, "        self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix)\n", "        if self._paramBoundBase__matrixHc is None:\n            self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix)\n")]),
 ('hc_cached_flag', 'bad', [(BC, "        self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix)\n", "        if self._paramBoundBase__matrixHc is None or self._paramBoundBase__paramUpdated:\n            self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix)\n")]),
 ('hc_never', 'bad', [(P, "        return copyStep(self, hc=True)", "        return copyStep(self)")]),
 ('hc_always', 'bad', [(P, CU, CU.replace("self.superSys._hc if self.hc else self.superSys._paramBoundBase__matrix", "self.superSys._hc"))]),
 ('hc_swapped', 'bad', [(P, CG, CG.replace("self.superSys._hc if self.hc else self.superSys._paramBoundBase__matrix", "self.superSys._paramBoundBase__matrix if self.hc else self.superSys._hc"))]),
 ('unitary_delegates', 'same', [(P, CU, "    def unitary(self):\n        return self.getUnitary()\n")]),
 ('unitary_value', 'same', [(P, CU, "    def unitary(self):\n        u = self.superSys.unitary()\n        return self.superSys._hc if self.hc else u\n")]),
 ('hc_inline', 'same', [(P, CG, "    def getUnitary(self, collapseOps=None, decayRates=None):\n        self.superSys.unitary()\n        if not self.hc:\n            return self.superSys._paramBoundBase__matrix\n        return self.superSys._hc\n")]),
 ('get_force', 'same', [(P, CG, CG.replace("self.superSys.unitary()", "self.superSys.getUnitary()"))]),
 ('copy_clears', 'bad', [(P, "    def _paramUpdatedToFalse(self):\n        pass\n", "    def _paramUpdatedToFalse(self):\n        pass\n    _stale = {}\n"), (P, CU, "    def unitary(self):\n        if self not in copyStep._stale:\n            self.superSys.unitary()\n            copyStep._stale[self] = self.superSys._hc if self.hc else self.superSys._paramBoundBase__matrix\n        return copyStep._stale[self]\n")]),
 ('copy_pu_false', 'same', [(P, "        return self.superSys._paramUpdated\n", "        return False\n")]),
 ('repeat_skipped', 'bad', [(P, "                super().addSubSys(copyStep(step))\n", "")]),
 ('protocol_order', 'bad', [(P, "unitary = step.getUnitary(collapseOps, decayRates) @ unitary", "unitary = unitary @ step.getUnitary(collapseOps, decayRates)")]),
]

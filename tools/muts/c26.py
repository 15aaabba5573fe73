S = 'classes/QSystem.py'
B = 'classes/base.py'
SUB = "            cqsys = qsys.copy()\n"
FIND = "                qSystemNames = [self._copyOf(qsys, newSys) for qsys in ter.qSystem]\n"
FREQ = "                                  frequency=ter.frequency,\n                                  order=ter.order)\n"
M = [
 ('shared_sub', 'bad', [(S, SUB, "            cqsys = qsys.copy() if qsys._isComposite else qsys\n")]),
 ('shared_sub2', 'bad', [(S, SUB, "            cqsys = qsys\n")]),
 ('orig_coupling', 'bad', [(S, FIND, "                qSystemNames = list(ter.qSystem)\n")]),
 ('sorted_coupling', 'bad', [(S, FIND, "                qSystemNames = [self._copyOf(qsys, newSys) for qsys in self.subSys.values() if qsys in ter.qSystem]\n")]),
 ('by_index', 'bad', [(S, FIND, "                subs = list(newSys.subSys.values())\n                qSystemNames = [subs[ter.qSystem[i].ind if ter.qSystem[i].superSys is self else 0] for i in range(len(ter.qSystem))]\n")]),
 ('order_lost', 'bad', [(S, FREQ, "                                  frequency=ter.frequency)\n")]),
 ('freq_lost', 'bad', [(S, FREQ, "                                  frequency=self.frequency,\n                                  order=ter.order)\n")]),
 ('first_order_lost', 'bad', [(S, "                newSys._firstTerm.order=ter.order#pylint:disable=no-member,protected-access\n", "")]),
 ('first_op_lost', 'bad', [(S, "                newSys._firstTerm.operator=ter.operator#pylint:disable=no-member,protected-access\n", "")]),
 ('first_only', 'bad', [(S, "            if terInd > 0 or newSys._QuantumSystem__firstTerm is None:", "            if terInd > 1 or newSys._QuantumSystem__firstTerm is None:")]),
 ('no_initial', 'bad', [(S, "            newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot\n", "            pass\n")]),
 ('shared_initial_obj', 'bad', [(S, "            newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot\n", "            newSys.simulation._stateBase__initialStateInput = self.simulation._stateBase__initialStateInput\n")]),
 ('no_coef', 'bad', [(S, "            newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot\n", "")]),
 ('no_dim', 'bad', [(S, "            newSys.dimension = self.dimension#pylint:disable=assigning-non-slot\n", "")]),
 ('kwargs_first', 'bad', [(S, "        newSys._named__setKwargs(**kwargs) #pylint:disable=no-member\n        return newSys\n\n    def __rmul__", "        return newSys\n\n    def __rmul__"), (S, "        newSys = super().copy()\n        for qsys", "        newSys = super().copy(**kwargs)\n        for qsys")]),
 ('shared_sim', 'bad', [(S, "        newSys._named__setKwargs(**kwargs) #pylint:disable=no-member\n        return newSys\n\n    def __rmul__", "        newSys._named__setKwargs(**kwargs) #pylint:disable=no-member\n        newSys._QSimComp__simulation = self.simulation\n        return newSys\n\n    def __rmul__")]),
 ('mul_self', 'bad', [(S, "            newComp.addSubSys(self.copy())\n", "            newComp.addSubSys(self)\n")]),
 ('mul_more', 'bad', [(S, "        for _ in range(other - 1):\n", "        for _ in range(other):\n")]),
 ('same_terms', 'bad', [(S, "            if terInd > 0 or newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access\n", "            if terInd > 0:\n                newSys.addTerms(ter)\n            elif newSys._QuantumSystem__firstTerm is None:\n")]),
 ('loop', 'same', [(S, FIND, "                qSystemNames = []\n                for qsys in ter.qSystem:\n                    qSystemNames.append(self._copyOf(qsys, newSys))\n")]),
 ('stack', 'same', [(S, "        for oldSub, newSub in zip(self.subSys.values(), newSys.subSys.values()):\n            found = newSub if oldSub is qsys else oldSub._copyOf(qsys, newSub) # pylint: disable=protected-access\n            if found is not None:\n                return found\n        return None\n", "        todo = list(zip(self.subSys.values(), newSys.subSys.values()))\n        while todo:\n            oldSub, newSub = todo.pop()\n            if oldSub is qsys:\n                return newSub\n            todo.extend(zip(oldSub.subSys.values(), newSub.subSys.values()))\n        return None\n")]),
 ('dict', 'same', [(S, FIND, "                copies = dict(self._pairs(newSys))\n                qSystemNames = [copies[qsys.name] for qsys in ter.qSystem]\n"), (S, "    def copy(self, **kwargs):\n        newSys = super().copy()\n", "    def _pairs(self, newSys):\n        out = []\n        for o, n in zip(self.subSys.values(), newSys.subSys.values()):\n            out.append((o.name, n))\n            out.extend(o._pairs(n))\n        return out\n\n    def copy(self, **kwargs):\n        newSys = super().copy()\n")]),
 ('noalias', 'same', [(S, '            cqsys.alias = qsys.name + "_" + cqsys.name\n', "")]),
 ('helper', 'same', [(S, "            newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot\n", "            newSys.simulation.initialState = self.simulation._initialStateInput\n")]),
]

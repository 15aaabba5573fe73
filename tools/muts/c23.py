SB = 'classes/QSimBase.py'
P = 'classes/QPro.py'
Q = 'classes/QSim.py'
SC = 'classes/QSimComp.py'
BT = "                    if (getattr(self, key)._bound is None or re) and (not getattr(other, key)._isBoundTo(getattr(self, key))):\n"
M = [
 ('nocircle', 'bad', [(SB, BT, "                    if getattr(self, key)._bound is None or re:\n")]),
 ('norebind', 'bad', [(SB, BT, "                    if getattr(self, key)._bound is None and (not getattr(other, key)._isBoundTo(getattr(self, key))):\n")]),
 ('always', 'bad', [(SB, BT, "                    if not getattr(other, key)._isBoundTo(getattr(self, key)):\n")]),
 ('one_level', 'bad', [(SB, "        if hasattr(self._bound, 'value'):\n            self._bound = cast(_parameter, self._bound)\n            return self._bound.value\n", "        if hasattr(self._bound, 'value'):\n            self._bound = cast(_parameter, self._bound)\n            return self._bound._value\n")]),
 ('cached', 'bad', [(SB, "            return self._bound.value\n        return self._value", "            if self._value is None:\n                self._value = self._bound.value\n        return self._value")]),
 ('keep_bound', 'bad', [(SB, "        self._bound = False\n        self._value = value\n", "        self._value = value\n")]),
 ('through', 'bad', [(SB, "        self._bound = False\n        self._value = value\n", "        if isinstance(self._bound, _parameter):\n            self._bound.value = value\n        else:\n            self._bound = False\n            self._value = value\n")]),
 ('to_none', 'same', [(SB, "        if hasattr(self._bound, 'value'):\n            self._bound = cast(_parameter, self._bound)\n            return self._bound.value\n        return self._value", "        bound = self\n        while isinstance(bound._bound, _parameter):\n            bound = bound._bound\n        return bound._value")]),
 ('samples_key', 'bad', [(SB, "            for key in (*keys, *params, '_timeBase__samples'):", "            for key in (*keys, *params):")]),
 ('del_key', 'bad', [(SB, "params=['_stateBase__delStates', '_stateBase__initialState', '_stateBase__initialStateInput']", "params=['_stateBase__initialState', '_stateBase__initialStateInput']")]),
 ('inp_key', 'bad', [(SB, "params=['_stateBase__delStates', '_stateBase__initialState', '_stateBase__initialStateInput']", "params=['_stateBase__delStates', '_stateBase__initialState']")]),
 ('size_key', 'bad', [(SB, "            for key in (*keys, *params, '_timeBase__samples'):", "            for key in (*keys[1:], *params, '_timeBase__samples'):")]),
 ('count_size', 'bad', [(SB, "            self._timeBase__stepSize.value = stepSize\n", "            self._timeBase__stepSize._value = stepSize\n")]),
 ('count_time', 'bad', [(SB, "            self._timeBase__stepSize.value = stepSize\n", "            self._timeBase__stepSize.value = stepSize\n            self._timeBase__totalTime.value = stepSize * num\n")]),
 ('size_time', 'bad', [(SB, "        setAttrParam(self, '_timeBase__stepSize', stepsize)\n", "        setAttrParam(self, '_timeBase__stepSize', stepsize)\n        if self.totalTime is not None:\n            self._timeBase__totalTime.value = self.totalTime\n")]),
 ('getter_cached', 'bad', [(SB, "        try:\n            self._timeBase__stepCount.value = int(self.totalTime // self.stepSize + 1)\n        except:\n            raise ValueError('?')\n", "        try:\n            if self._timeBase__stepCount.value is None:\n                self._timeBase__stepCount.value = int(self.totalTime // self.stepSize + 1)\n        except:\n            raise ValueError('?')\n")]),
 ('getter_param', 'bad', [(SB, "            _ = self._timeBase__bound.stepCount\n", "            pass\n")]),
 ('getter_root', 'bad', [(SB, "            self._timeBase__stepCount.value = int(self.totalTime // self.stepSize + 1)\n        except", "            self._timeBase__stepCount.value = int(self._timeBase__totalTime._value // self.stepSize + 1)\n        except")]),
 ('setparam_parent', 'bad', [(SB, "    if val != oldVal:\n        getattr(obj, attrStr).value = val\n", "    if val != oldVal:\n        getattr(obj, attrStr)._value = val\n")]),
 ('proto_rebind', 'bad', [(P, "        if self.simulation._timeBase__bound is None:\n            self.simulation._bound(supSys.simulation)\n", "        self.simulation._bound(supSys.simulation, re=True)\n")]),
 ('proto_nobind', 'bad', [(P, "        if self.simulation._timeBase__bound is None:\n            self.simulation._bound(supSys.simulation)\n", "")]),
 ('step_nobind', 'bad', [(P, "                step.simulation._bound(self.simulation, re=True)\n", "")]),
 ('sim_nobind', 'bad', [(Q, "                subS.simulation._bound(self)\n", "                pass\n")]),
 ('simcount', 'bad', [(SC, "        self.simulation.stepCount = num\n", "        self.simulation._timeBase__stepCount.value = num\n")]),
 ('simsize', 'bad', [(SC, "        self.simulation.stepSize = stepsize\n", "        self.simulation._timeBase__stepSize._value = stepsize\n")]),
 ('del_param', 'bad', [(SB, "        self._stateBase__delStates.value = boolean", "        self._stateBase__delStates._value = boolean")]),
]

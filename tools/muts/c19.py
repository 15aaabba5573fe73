M = [
 ('revert-update', 'bad', [('classes/QSys.py', "def updateDimension(self, qSys, newDimVal, oldDimVal=None, _exclude=None)", "def updateDimension(self, qSys, newDimVal, oldDimVal=None, _exclude=[])")]),
 ('revert-recurse', 'bad', [('classes/base.py', "def recurse(obj, inp, _exclude=None, **kwargs):\n        _exclude = [] if _exclude is None else _exclude", "def recurse(obj, inp, _exclude=[], **kwargs):")]),
 ('delm', 'bad', [('classes/baseClasses.py', "_exclude = [] if _exclude is None else _exclude", "_exclude = _exclude"), ('classes/baseClasses.py', "def delMatrices(self, _exclude: Optional[List] = None)", "def delMatrices(self, _exclude=[])")]),
 ('delm-or', 'same', [('classes/baseClasses.py', "_exclude = [] if _exclude is None else _exclude", "_exclude = _exclude or []")]),
 ('delm-if', 'same', [('classes/baseClasses.py', "        _exclude = [] if _exclude is None else _exclude", "        if _exclude is None:\n            _exclude = list()")]),
 ('delm-emptydefault', 'same', [('classes/QSimBase.py', "        _exclude = [] if _exclude is None else _exclude\n        if self not in _exclude:\n            _exclude = super().delMatrices(_exclude)", "        if not _exclude:\n            _exclude = list(_exclude or ())\n        if self not in _exclude:\n            _exclude = super().delMatrices(_exclude)"), ('classes/QSimBase.py', "def delMatrices(self, _exclude=None)", "def delMatrices(self, _exclude=[])")]),
 ('global-fallback', 'bad', [('classes/baseClasses.py', "_exclude = [] if _exclude is None else _exclude", "_exclude = _EXCL if _exclude is None else _exclude"), ('classes/baseClasses.py', "class paramBoundBase(", "_EXCL = []\nclass paramBoundBase(")]),
 ('global-fallback-copy', 'same', [('classes/baseClasses.py', "_exclude = [] if _exclude is None else _exclude", "_exclude = list(_EXCL) if _exclude is None else _exclude"), ('classes/baseClasses.py', "class paramBoundBase(", "_EXCL = []\nclass paramBoundBase(")]),
 ('bound-params', 'bad', [('classes/QSimBase.py', "            for key in (*keys, *params, '_timeBase__samples'):", "            params.remove('_stateBase__delStates') if len(params) > 2 else None\n            for key in (*keys, *params, '_timeBase__samples'):")]),
 ('bound-params-field', 'bad', [('classes/QSimBase.py', "            for key in (*keys, *params, '_timeBase__samples'):", "            self.boundNames = params\n            for key in (*keys, *params, '_timeBase__samples'):"), ('classes/QSimBase.py', "    def _bound(", "    def _freeName(self, key):\n        self.boundNames.remove(key)\n\n    def _bound(")]),
 ('helper', 'bad', [('classes/baseClasses.py', "_exclude = [] if _exclude is None else _exclude", "_exclude = _orEmpty(_exclude)"), ('classes/baseClasses.py', "class paramBoundBase(", "def _orEmpty(a=None, b=[]):\n    return b if a is None else a\n\nclass paramBoundBase(")]),
 ('cached-last', 'bad', [('QuantumToolbox/operators.py', 'def basis_bra', 'def basis_bra')]),
]
M = [m for m in M if m[0] != 'cached-last']

B = 'classes/base.py'
GET = "        slots = chain.from_iterable(getattr(cls, '__slots__', []) for cls in self.__class__.__mro__)\n"
MANG = "                k = self._findInSlots(k) + k\n"
SET = "        for slot in state:\n            setattr(self, slot, state[slot])\n"
WEAK = "            if isinstance(v, named):\n                self._allInstaces[k] = weakref.ref(v, None) # pylint: disable=protected-access\n"
LOOP = GET + "        for k in slots:\n            if k == '__weakref__':\n                continue\n\n            if (k.startswith(\"__\") and (not k.endswith(\"__\"))):\n" + MANG + "                state[k] = getattr(self, k)\n            else:\n                state[k] = getattr(self, k)\n        return state\n"
WR = "            if k == '__weakref__':\n                continue\n"
RED = "        items = ((k, v() if isinstance(v, weakref.ReferenceType) else v) for k, v in self.items())\n"
FIND = "                k = cls.__base__._findInSlots(k) # pylint: disable=no-member,protected-access\n"
M = [
 ('own_only', 'bad', [(B, GET, "        slots = self.__slots__\n")]),
 ('mro_short', 'bad', [(B, GET, GET.replace('__mro__)', '__mro__[:-2])'))]),
 ('mangle_own', 'bad', [(B, MANG, "                k = '_' + self.__class__.__name__ + k\n")]),
 ('weakref', 'bad', [(B, WR, "")]),
 ('skip_none', 'bad', [(B, SET, "        for slot in state:\n            if state[slot] is not None:\n                setattr(self, slot, state[slot])\n")]),
 ('skip_matrix', 'bad', [(B, WR, "            if k in ('__weakref__', '__matrix', '__matrixHc'):\n                continue\n")]),
 ('skip_results', 'bad', [(B, WR, "            if k in ('__weakref__', 'allResults'):\n                continue\n")]),
 ('noweak', 'bad', [(B, WEAK, "            pass\n")]),
 ('strong_sender', 'bad', [(B, "    def __getstate__(self):\n", "    def __getstate__(self):\n        for k, v in self._allInstaces.items():\n            if ((not isinstance(v, named)) and (v is not None)):\n                self._allInstaces[k] = v()\n")]),
 ('raw_refs', 'bad', [(B, RED, "        items = iter(self.items())\n")]),
 ('drop_dead', 'same', [(B, RED, "        items = ((k, v() if isinstance(v, weakref.ReferenceType) else v) for k, v in self.items() if not isinstance(v, weakref.ReferenceType) or v() is not None)\n")]),
 ('drop_internal', 'bad', [(B, RED, "        items = ((k, v() if isinstance(v, weakref.ReferenceType) else v) for k, v in self.items() if not str(k).startswith('_'))\n")]),
 ('noslots', 'bad', [('classes/QSweep.py', "    __slots__ = ['sweepMax', 'sweepMin', 'sweepStep', '_sweepList', 'logSweep', 'combinatorial', '_sweepIndex']\n", "")]),
 ('same_private', 'bad', [('classes/QSim.py', "    __slots__ = ['Sweep', 'timeDependency', 'evolFunc', '__index']\n", "    __slots__ = ['Sweep', 'timeDependency', 'evolFunc', '__index', '__bound']\n"), ('classes/QSim.py', "        self.__index = -1\n", "        self.__index = -1\n        self.__bound = None\n")]),
 ('unassigned', 'bad', [('classes/QSim.py', "    __slots__ = ['Sweep', 'timeDependency', 'evolFunc', '__index']\n", "    __slots__ = ['Sweep', 'timeDependency', 'evolFunc', '__index', '_lastPoint']\n")]),
 ('lambda', 'bad', [('classes/QSim.py', "        self.evolFunc = Simulation._evolFuncDefault\n", "        self.evolFunc = lambda sim: timeEvolBase(sim)\n")]),
 ('sweep_private', 'bad', [('classes/QSweep.py', "'combinatorial', '_sweepIndex']", "'combinatorial', '_sweepIndex', '__list']"), ('classes/QSweep.py', "        self._sweepIndex = -1\n", "        self._sweepIndex = -1\n        self.__list = None\n")]),
 ('reset_sender', 'bad', [(B, "        state = {}\n", "        if hasattr(self, '_paramBoundBase__matrix'):\n            self._paramBoundBase__matrix = None\n        state = {}\n")]),
 ('param', 'bad', [('classes/QSimBase.py', "    __slots__ = ['_value', '_bound']\n", "    __slots__ = ['_value', '_bound']\n\n    def __getstate__(self):\n        return {'_value': self._value}\n\n    def __setstate__(self, state):\n        self._value = state['_value']\n        self._bound = False\n")]),
 ('find_wrong', 'bad', [(B, FIND, "                k = '_' + cls.__base__.__name__\n")]),
 ('alias_lost', 'bad', [(B, '    __slots__ = ["__name", "__alias"]\n', '    __slots__ = ["__name", "__alias"]\n\n    def __getstate__(self):\n        return {"_aliasClass__name": self._aliasClass__name}\n\n    def __setstate__(self, state):\n        self._aliasClass__name = state["_aliasClass__name"]\n        self._aliasClass__alias = []\n')]),
 ('comp', 'same', [(B, LOOP, "        slots = [k for cls in type(self).__mro__ for k in getattr(cls, '__slots__', []) if k != '__weakref__']\n        keys = [self._findInSlots(k) + k if k.startswith('__') and not k.endswith('__') else k for k in slots]\n        return {k: getattr(self, k) for k in keys}\n")]),
 ('percls', 'same', [(B, LOOP, "        for cls in type(self).__mro__:\n            for k in cls.__dict__.get('__slots__', ()):\n                if k != '__weakref__':\n                    name = '_' + cls.__name__.lstrip('_') + k if k.startswith('__') and not k.endswith('__') else k\n                    state[name] = getattr(self, name)\n        return state\n")]),
 ('helper', 'same', [(B, LOOP, "        for k in self._slotNames():\n            state[k] = getattr(self, k)\n        return state\n\n    def _slotNames(self):\n" + LOOP.replace("        for k in slots", "        names = []\n        for k in slots").replace("                state[k] = getattr(self, k)\n            else:\n                state[k] = getattr(self, k)\n", "            names.append(k)\n").replace('return state', 'return names'))]),
 ('setitems', 'same', [(B, SET, "        for slot, value in state.items():\n            setattr(self, slot, value)\n")]),
 ('weak_list', 'same', [(B, "        for k, v in self._allInstaces.items(): # pylint: disable=protected-access\n" + WEAK, "        self._weaken()\n"), (B, "    def __init__(self, **kwargs) -> None:\n        #: boolean", "    def _weaken(self):\n        strong = [(k, v) for k, v in self._allInstaces.items() if isinstance(v, named)]\n        for k, v in strong:\n            self._allInstaces[k] = weakref.ref(v)\n\n    def __init__(self, **kwargs) -> None:\n        #: boolean")]),
 ('reduce_list', 'same', [(B, RED, "        items = []\n        for k, v in self.items():\n            if isinstance(v, weakref.ReferenceType):\n                v = v()\n            items.append((k, v))\n        items = iter(items)\n")]),
]

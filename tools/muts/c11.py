B = 'classes/base.py'
S = 'classes/QSystem.py'
Q = 'classes/QSimBase.py'
INC = "        self._incrementInstances()\n        while self"
WH = "        while self._named__namer() in named._allInstacesDict: # already used, e.g., as an alias of another object\n            self._incrementInstances()\n"
REG = "        named._allInstacesDict[self.name] = weakref.ref(self, None)\n"
EXT = "        if self._internal is False:\n            self.__class__._externalInstances += 1\n        elif self._internal is True:\n            self.__class__._internalInstances += 1\n"
NAM = "        if self._internal is False:\n            name = self.clsLabel() + str(self.clsInstances(self._internal))\n        else:\n            name = '_' + self.clsLabel() + str(self.clsInstances(self._internal))\n        return name\n"
NM = "        self.__name: aliasClass = aliasClass(name=self._named__namer())\n"
SETN = "        self.__name = checkNotVal(self._aliasClass__name, None, self._aliasClass__name + \"'s name cannot be changed.\")\n"
M = [
 ('late', 'bad', [(B, INC, "        while self"), (B, REG, REG + "        self._incrementInstances()\n")]),
 ('nowhile', 'bad', [(B, WH, "")]),
 ('ifnotwhile_noreg', 'same', [(B, WH, WH.replace('while', 'while True and', 1))]),
 ('both', 'bad', [(B, EXT, "        if self._internal is False:\n            self.__class__._externalInstances += 1\n        else:\n            self.__class__._internalInstances += 1\n            self.__class__._externalInstances += 1\n")]),
 ('totalnum', 'bad', [(B, EXT, "        self.__class__._externalInstances += 1\n        if self._internal is True:\n            self.__class__._internalInstances += 1\n")]),
 ('one_counter_name', 'bad', [(B, NAM, "        pre = '' if self._internal is False else '_'\n        return pre + self.clsLabel() + str(named._totalNumberOfInst)\n")]),
 ('nolabel', 'bad', [(B, NAM, NAM.replace("'_' + self.clsLabel()", "'_qobj'"))]),
 ('strong', 'bad', [(B, REG, "        named._allInstacesDict[self.name] = self\n")]),
 ('unregistered', 'bad', [(B, REG, "        if not self._internal:\n            named._allInstacesDict[self.name] = weakref.ref(self, None)\n")]),
 ('wrongkey', 'bad', [(B, REG, "        named._allInstacesDict[self.clsLabel()] = weakref.ref(self, None)\n")]),
 ('internal_dropped', 'bad', [(Q, "        super().__init__(_internal=kwargs.pop('_internal', False))\n        #: _parameter", "        super().__init__()\n        #: _parameter")]),
 ('internal_dropped2', 'bad', [('classes/QSweep.py', "        super().__init__(_internal=kwargs.pop('_internal', False))", "        kwargs.pop('_internal', False)\n        super().__init__()")]),
 ('reset_partial', 'bad', [(B, "        named._allInstacesDict = aliasDict() # pylint:disable=protected-access\n        named._resetAll", "        named._resetAll")]),
 ('reset_counters', 'same', [(B, "        cls._instances = 0 # pylint:disable=protected-access\n", "        cls._instances = cls._externalInstances\n")]),
 ('lookup', 'bad', [(B, "        return obj if isinstance(obj, named) else obj()\n\n    def _incr", "        return obj\n\n    def _incr")]),
 ('setter', 'bad', [(B, "    @property\n    def alias(self) -> List:\n        r\"\"\"\n        alias property gets the list of aliases.\n\n        Sets (adds/extends into the list) alias (single/list of alias). Does not allow duplicate alias.\n        \"\"\"\n        return self._named__name.alias\n", "    @name.setter\n    def name(self, new):\n        self._named__name = aliasClass(name=new)\n\n    @property\n    def alias(self) -> List:\n        return self._named__name.alias\n")]),
 ('named_counter', 'bad', [(B, "            self.__class__._internalInstances += 1\n\n    def __namer", "            named._internalInstances += 1\n\n    def __namer")]),
 ('inherit', 'bad', [(B, "        self.__class__._instances += 1\n        if", "        self.__class__._instances += 1\n        if self.__class__.__base__ is not object:\n            self.__class__.__base__._externalInstances += 1\n        if")]),
 ('fstr', 'same', [(B, NAM, "        number = self.clsInstances(self._internal)\n        return f\"{'_' if self._internal else ''}{self.clsLabel()}{number}\"\n")]),
 ('fstr2', 'same', [(B, NAM, "        prefix = '_' if self._internal else ''\n        return f'{prefix}{self.clsLabel()}{self.clsInstances(self._internal)}'\n")]),
 ('percent', 'same', [(B, NAM, "        prefix = '_' if self._internal else ''\n        return '%s%s%d' % (prefix, self.clsLabel(), self.clsInstances(self._internal))\n")]),
 ('format', 'same', [(B, NAM, "        prefix = '_' if self._internal else ''\n        return '{}{}{}'.format(prefix, self.clsLabel(), self.clsInstances(self._internal))\n")]),
 ('join', 'same', [(B, NAM, "        prefix = '_' if self._internal else ''\n        return ''.join([prefix, self.clsLabel(), str(self.clsInstances(self._internal))])\n")]),
 ('helper', 'same', [(B, INC, "        self._count()\n        while self"), (B, "    def _incrementInstances(self) -> None:\n", "    def _count(self):\n        type(self)._incrementInstances(self)\n\n    def _incrementInstances(self) -> None:\n")]),
 ('typeself', 'same', [(B, EXT, "        cls = type(self)\n        if self._internal:\n            cls._internalInstances = cls._internalInstances + 1\n        else:\n            cls._externalInstances = cls._externalInstances + 1\n")]),
 ('setattr', 'same', [(B, EXT, "        which = '_internalInstances' if self._internal else '_externalInstances'\n        setattr(self.__class__, which, getattr(self.__class__, which) + 1)\n")]),
 ('register_before', 'same', [(B, NM + "        self._named__setKwargs(**kwargs)\n" + REG, NM + REG + "        self._named__setKwargs(**kwargs)\n")]),
 ('whiletrue', 'same', [(B, "        self._incrementInstances()\n" + WH, "        while True:\n            self._incrementInstances()\n            if self._named__namer() not in named._allInstacesDict:\n                break\n")]),
 ('reg_helper', 'same', [(B, REG, "        self._register()\n"), (B, "    def __str__(self) -> str:\n        r\"\"\"\n        string representation of the object is the default name", "    def _register(self):\n        reference = weakref.ref(self)\n        named._allInstacesDict[self._named__name] = reference\n\n    def __str__(self) -> str:\n        r\"\"\"\n        string representation of the object is the default name")]),
 ('lookup2', 'same', [(B, "        obj = checkNotVal(self._allInstaces.get(name), None,\n                          f\"No object with the given name/alias {name} is found!\")\n", "        if name not in self._allInstaces:\n            raise ValueError(f\"No object with the given name/alias {name} is found!\")\n        obj = self._allInstaces[name]\n")]),
]

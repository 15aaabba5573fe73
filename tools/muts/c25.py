P='classes/QPro.py'
SB="""        if self._updateBase__function is not None or self.value != self.memoryValue: # pylint: disable=no-member
            super()._runUpdate(self.memoryValue)
        for sys, memory in self._Update__memoryOthers: # pylint: disable=no-member
            setattr(sys, self.key, memory)"""
SU="""        systems = list(self.subSys.values())
        self.memoryValue = getattr(systems[0], self.key)
        self._Update__memoryOthers = [(sys, getattr(sys, self.key)) for sys in systems[1:]] # pylint: disable=assigning-non-slot
"""
M=[
 ('noreverse','bad',[(P,"for update in reversed(self._genericProtocol__updates)","for update in self._genericProtocol__updates")]),
 ('reverse_setup','bad',[(P,"        for update in self._genericProtocol__updates: # pylint: disable=not-an-iterable\n            update.setup()","        for update in reversed(self._genericProtocol__updates):\n            update.setup()"),(P,"for update in self._genericProtocol__updates:\n            update.setup()","for update in reversed(self._genericProtocol__updates):\n            update.setup()")][1:]),
 ('others_lost','bad',[(P,"        for sys, memory in self._Update__memoryOthers: # pylint: disable=no-member\n            setattr(sys, self.key, memory)","")]),
 ('save_after','bad',[(P,SU,""),(P,"            self._updateBase__function(self) # pylint: disable=no-member\n","            self._updateBase__function(self) # pylint: disable=no-member\n"+SU)]),
 ('others_early','bad',[(P,"systems[1:]]","systems[2:]]")]),
 ('firstval','bad',[(P,"setattr(sys, self.key, memory)","setattr(sys, self.key, self.memoryValue)")]),
 ('onlydiff','bad',[(P,"self._updateBase__function is not None or self.value","self.value")]),
 ('early_setback','bad',[(P,"        for update in self._genericProtocol__updates: # pylint: disable=not-an-iterable\n            update.setup()","X")]) if False else
 ('condsetback','bad',[(P,"            update.setback()","            if update.value is not None:\n                update.setback()")]),
 ('savelist','bad',[(P,"getattr(sys, self.key)) for sys in systems[1:]]","self.memoryValue) for sys in systems[1:]]")]),
 ('dictmem','same',[(P,SU,"        systems = list(self.subSys.values())\n        self.memoryValue = getattr(systems[0], self.key)\n        self._Update__memoryOthers = list(zip(systems, [getattr(s, self.key) for s in systems]))\n")]),
 ('loopmem','same',[(P,SU,"""        self._Update__memoryOthers = []
        for i, s in enumerate(self.subSys.values()):
            old = getattr(s, self.key)
            if i == 0:
                self.memoryValue = old
            else:
                self._Update__memoryOthers.append((s, old))
""")]),
 ('always','same',[(P,SB,"""        super()._runUpdate(self.memoryValue)
        for sys, memory in self._Update__memoryOthers: # pylint: disable=no-member
            setattr(sys, self.key, memory)""")]),
 ('slicerev','same',[(P,"for update in reversed(self._genericProtocol__updates)","for update in self._genericProtocol__updates[::-1]")]),
 ('helper','same',[(P,"        for update in reversed(self._genericProtocol__updates):\n            update.setback()","        self._undo()"),(P,"    def _paramUpdatedToFalse(self):","    def _undo(self):\n        ups = list(self.updates)\n        while ups:\n            ups.pop().setback()\n\n    def _paramUpdatedToFalse(self):")]),
]

M_='classes/modularSweep.py'; Q='classes/QSim.py'; R='classes/QRes.py'
M=[
 ('clear','bad',[(R,"            qRes._qResBase__results = defaultdict(list)","            qRes._qResBase__results.clear()")]),
 ('own','bad',[(R,"""        for qRes in self.allResults.values():
            qRes._qResBase__resultsLast = defaultdict(list)
            qRes._qResBase__statesLast = defaultdict(list)
            qRes._qResBase__average = defaultdict(list)""","""        self._qResBase__resultsLast = defaultdict(list)
        self._qResBase__statesLast = defaultdict(list)
        self._qResBase__average = defaultdict(list)""")]),
 ('noavg','bad',[(R,"            qRes._qResBase__statesLast = defaultdict(list)\n            qRes._qResBase__average = defaultdict(list)\n","            qRes._qResBase__statesLast = defaultdict(list)\n")]),
 ('nocalc','bad',[(R,"            qRes._qResBase__calculated = defaultdict(list)\n","            pass\n")]),
 ('oneobj','bad',[(R,"            qRes._qResBase__states = defaultdict(list)\n            qRes._qResBase__resultsLast = defaultdict(list)","            qRes._qResBase__states = defaultdict(list)\n            qRes._qResBase__resultsLast = qRes._qResBase__results")]),
 ('noreset','bad',[(M_,"    qSim.qRes._resetLast()\n","")]),
 ('runreset','bad',[(Q,"""        if resetRes:
            for qres in self.qRes.allResults.values():
                qres._reset()""","""        if resetRes:
            for qres in self.qRes.allResults.values():
                qres._resetLast()""")]),
 ('extend','bad',[(R,"._qResBase__results[key].append(val)","._qResBase__results[key].extend(val)")]),
 ('delstates','bad',[(Q,"if protocol.simulation.delStates is False:","if self.delStates is False:")]),
 ('orgtwice','bad',[(M_,"        qSim.qRes._organiseSingleProcRes()\n","        qSim.qRes._organiseSingleProcRes()\n        qSim.qRes._organiseSingleProcRes()\n")]),
 ('finalise_once','bad',[(R,"        for qres in cls._allResults.values():\n            qres._finalise(inds)","        for qres in list(cls._allResults.values())[:1]:\n            qres._finalise(inds)")]),
 ('namekey','bad',[(Q,"self.qRes.states[protocol.name+'Results'].append","self.qRes.states[protocol.superSys.name+'Results'].append")]),
 ('loopfields','same',[(R,"""            qRes._qResBase__resultsLast = defaultdict(list)
            qRes._qResBase__statesLast = defaultdict(list)
            qRes._qResBase__average = defaultdict(list)
""","""            for field in ('resultsLast', 'statesLast', 'average'):
                setattr(qRes, '_qResBase__' + field, defaultdict(list))
""",)]),
 ('helper','same',[(R,"""            qRes._qResBase__resultsLast = defaultdict(list)
            qRes._qResBase__statesLast = defaultdict(list)
            qRes._qResBase__average = defaultdict(list)
""","""            qRes._clearLast()
"""),(R,"    def _organiseMultiProcRes(","    def _clearLast(self):\n        self._qResBase__resultsLast = defaultdict(list)\n        self._qResBase__statesLast = defaultdict(list)\n        self._qResBase__average = defaultdict(list)\n\n    def _organiseMultiProcRes(")]),
 ('onereset','same',[(Q,"""            for qres in self.qRes.allResults.values():
                qres._reset()""","""            self.qRes._reset()""")]),
 ('key','same',[(Q,"""                if protocol._internal:
                    self.qRes.states[protocol.superSys.name+'Results'].append(protocol.currentState)
                else:
                    self.qRes.states[protocol.name+'Results'].append(protocol.currentState)""","""                owner = protocol.superSys if protocol._internal else protocol
                self.qRes.states[owner.name + 'Results'].append(protocol.currentState)""")]),
 ('items','same',[(R,"""        for key, val in valUni.resultsDict.items():
            qResults._allResults[keyUni]._qResBase__results[key].append(val)""","""        target = qResults._allResults[keyUni]
        for key in valUni.resultsDict:
            target._qResBase__results[key].append(valUni.resultsDict[key])""")]),
]

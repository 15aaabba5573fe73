M_='classes/modularSweep.py'; Q='classes/QSim.py'; B='classes/baseClasses.py'
M=[
 ('sweep_late','bad',[(M_,"""    if len(qSim.Sweep.inds) > 0:
        qSim.Sweep.runSweep(qSim.Sweep._indicesForSweep(ind, *qSim.Sweep.inds))
""",""),(M_,"    qSim.qRes._resetLast()\n","    if len(qSim.Sweep.inds) > 0:\n        qSim.Sweep.runSweep(qSim.Sweep._indicesForSweep(ind, *qSim.Sweep.inds))\n    qSim.qRes._resetLast()\n")]),
 ('reset_late','bad',[(M_,"    qSim.qRes._resetLast()\n    qSim._computeBase__calculate('pre')\n","    qSim._computeBase__calculate('pre')\n    qSim.qRes._resetLast()\n")]),
 ('reset_gone','bad',[(M_,"    qSim.qRes._resetLast()\n","")]),
 ('shared','bad',[(M_,"        if qsystem not in calledFor:\n            qsystem._computeBase__compute(protocol.currentState)\n","        if qsystem:\n            qsystem._computeBase__compute(protocol.currentState)\n")]),
 ('stale','bad',[(M_,"    timeDependent(qSim)\n    qSim._computeBase__calculate('post')","    qSim._computeBase__calculate('post')\n    timeDependent(qSim)")]),
 ('dm','bad',[(M_,"protocol.currentState = protocol.initialState if not protocol._isOpen else densityMatrix(protocol.initialState)","protocol.currentState = protocol.initialState")]),
 ('tdstep','bad',[(M_,'qSim.timeDependency._indicesForSweep(ind, *qSim.timeDependency.inds)','qSim.timeDependency._indicesForSweep(ind + 1, *qSim.timeDependency.inds)')]),
 ('tdafter','bad',[(M_,"""            if td:
                qSim.timeDependency.runSweep(qSim.timeDependency._indicesForSweep(ind, *qSim.timeDependency.inds))

            qSim.evolFunc(qSim)
""","""            qSim.evolFunc(qSim)
            if td:
                qSim.timeDependency.runSweep(qSim.timeDependency._indicesForSweep(ind, *qSim.timeDependency.inds))
""")]),
 ('computeorder','bad',[(M_,"            qSim.evolFunc(qSim)\n            qSim._Simulation__compute()\n            for protocol in qSim.subSys.keys():\n                protocol._computeBase__compute(protocol.currentState)\n","            qSim.evolFunc(qSim)\n            for protocol in qSim.subSys.keys():\n                protocol._computeBase__compute(protocol.currentState)\n            qSim._Simulation__compute()\n")]),
 ('once','bad',[(M_,"            calledFor = []\n            for protocol, qsystem in qSim.subSys.items():","            for protocol, qsystem in qSim.subSys.items():")]),
 ('lasttime','bad',[(M_,"for ind in range(qSim.stepCount):","for ind in range(qSim.stepCount - 1):")]),
 ('postpre','bad',[(B,"            meth = self.postCompute","            meth = self.postCompute or self.preCompute")]),
 ('where','bad',[(B,"            meth = self.postCompute","            meth = self.preCompute")]),
 ('calc','bad',[(B,"            return meth(self, *args, **kwargs)","            return meth(*args, **kwargs)")]),
 ('statesbefore','bad',[(Q,"            states.append(protocol.currentState)\n","            states.insert(0, protocol.currentState)\n")]),
 ('helper','same',[(M_,"    qSim._computeBase__calculate('pre')\n    for protocol in qSim.subSys.keys():\n        protocol._computeBase__calculate('pre')\n    calledFor = []\n    for protocol, qsystem in qSim.subSys.items():\n        if qsystem not in calledFor:\n            qsystem._computeBase__calculate('pre')\n            calledFor.append(qsystem)\n","    _calcAll(qSim, 'pre')\n"),(M_,"def timeDependent(qSim):","def _calcAll(qSim, where):\n    qSim._computeBase__calculate(where)\n    for protocol in qSim.subSys.keys():\n        protocol._computeBase__calculate(where)\n    done = []\n    for qsystem in qSim.subSys.values():\n        if qsystem in done:\n            continue\n        qsystem._computeBase__calculate(where)\n        done.append(qsystem)\n\ndef timeDependent(qSim):")]),
 ('if','same',[(M_,"            protocol.currentState = protocol.initialState if not protocol._isOpen else densityMatrix(protocol.initialState)","            if protocol._isOpen:\n                protocol.currentState = densityMatrix(protocol.initialState)\n            else:\n                protocol.currentState = protocol.initialState")]),
 ('called_set','same',[(M_,"""    calledFor = []
    for protocol, qsystem in qSim.subSys.items():
        if qsystem not in calledFor:
            qsystem._computeBase__calculate('post')
            calledFor.append(qsystem)""","""    for qsystem in {id(qsys): qsys for qsys in qSim.subSys.values()}.values():
        qsystem._computeBase__calculate('post')""")]),
 ('fromkeys','same',[(M_,"""    calledFor = []
    for protocol, qsystem in qSim.subSys.items():
        if qsystem not in calledFor:
            qsystem._computeBase__calculate('post')
            calledFor.append(qsystem)""","""    for qsystem in dict.fromkeys(qSim.subSys.values()):
        qsystem._computeBase__calculate('post')""")]),
 ('while','same',[(M_,"        for ind in range(qSim.stepCount):\n            qSim._Simulation__index = ind","        for stepNumber in range(qSim.stepCount):\n            ind = stepNumber\n            qSim._Simulation__index = ind")]),
 ('comp','same',[(Q,"        states = []\n        for protocol in self.subSys.keys():\n            states.append(protocol.currentState)\n","        states = [protocol.currentState for protocol in self.subSys.keys()]\n        for protocol in self.subSys.keys():\n")]),
 ('calldict','same',[(B,"        if where == 'pre':\n            meth = self.preCompute\n        elif where == 'post':\n            meth = self.postCompute\n","        meth = {'pre': self.preCompute, 'post': self.postCompute}[where]\n")]),
 ('resetfirst','same',[(M_,"    qSim.qRes._resetLast()\n    qSim._computeBase__calculate('pre')\n","    qSim._computeBase__calculate('pre')\n"),(M_,"    for protocol in qSim.subSys.keys():\n        if callable(qSim.evolFunc):\n            protocol.currentState","    qSim.qRes._resetLast()\n    for protocol in qSim.subSys.keys():\n        if callable(qSim.evolFunc):\n            protocol.currentState")]),
]

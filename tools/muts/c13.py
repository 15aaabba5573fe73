M_='classes/modularSweep.py'; Q='classes/QSim.py'; R='classes/QRes.py'
PM="results = p.map(partial(parallelTimeEvol, qSim), range(qSim.Sweep.indMultip), chunksize=1)"
M=[
 ('unordered','bad',[(M_,PM,"results = list(p.imap_unordered(partial(parallelTimeEvol, qSim), range(qSim.Sweep.indMultip), chunksize=1))")]),
 ('range','bad',[(M_,PM,"results = p.map(partial(parallelTimeEvol, qSim), range(len(qSim.Sweep.inds)), chunksize=1)")]),
 ('noresetlast','bad',[(M_,"def parallelTimeEvol(qSim, ind):\n    _runSweepAndPrep(qSim, ind)","def parallelTimeEvol(qSim, ind):\n    if len(qSim.Sweep.inds) > 0:\n        qSim.Sweep.runSweep(qSim.Sweep._indicesForSweep(ind, *qSim.Sweep.inds))\n    timeDependent(qSim)")]),
 ('blankstates','bad',[(R,"            newQRes._qResBlank__statesLast = sys._qResBase__statesLast\n","")]),
 ('blankres','bad',[(R,"            newQRes._qResBlank__resultsLast = sys._qResBase__resultsLast\n","            newQRes._qResBlank__resultsLast = sys._qResBase__results\n")]),
 ('onlyself','bad',[(R,"            allResCopy[sys.name] = newQRes","            allResCopy[self.name] = newQRes")]),
 ('finalonce','bad',[(R,"        self._finaliseAll(inds)\n","        self._finalise(inds)\n")]),
 ('reversed','bad',[(R,"        for res in results:\n","        for res in reversed(results):\n")]),
 ('indsswap','bad',[(M_,"qSim.qRes._organiseMultiProcRes(results, qSim.Sweep.inds)","qSim.qRes._organiseMultiProcRes(results, list(reversed(qSim.Sweep.inds)))")]),
 ('nonparalindex','bad',[(M_,"        _runSweepAndPrep(qSim, ind)\n        qSim.qRes._organiseSingleProcRes()","        _runSweepAndPrep(qSim, ind)\n        if ind:\n            qSim.qRes._organiseSingleProcRes()")]),
 ('imap','same',[(M_,PM,"results = list(p.imap(partial(parallelTimeEvol, qSim), range(qSim.Sweep.indMultip), chunksize=1))")]),
 ('lam','same',[(M_,PM,"work = partial(parallelTimeEvol, qSim)\n    points = range(qSim.Sweep.indMultip)\n    results = p.map(work, points, chunksize=1)")]),
 ('starmap','same',[(M_,PM,"results = p.starmap(parallelTimeEvol, [(qSim, ind) for ind in range(qSim.Sweep.indMultip)], chunksize=1)")]),
 ('fields','same',[(R,"""            newQRes._qResBlank__results = sys._qResBase__results
            newQRes._qResBlank__average = sys._qResBase__average
            newQRes._qResBlank__states = sys._qResBase__states
            newQRes._qResBlank__resultsLast = sys._qResBase__resultsLast
            newQRes._qResBlank__statesLast = sys._qResBase__statesLast
            newQRes._qResBlank__calculated = sys._qResBase__calculated
""","""            for field in ('results', 'average', 'states', 'resultsLast', 'statesLast', 'calculated'):
                setattr(newQRes, '_qResBlank__' + field, getattr(sys, '_qResBase__' + field))
""")]),
 ('nochunk','same',[(M_,", chunksize=1)",")")]),
]

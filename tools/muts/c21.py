Q='classes/QSim.py'; S='extensions/saveReadCSV.py'
FIN="""        try:
            runSimulation(qSim, _pool)
        finally:
            if _pool is not None:
                _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
                _pool.close()
                _pool.join()"""
M=[
 ('nofinally','bad',[(Q,FIN,"""        runSimulation(qSim, _pool)
        if _pool is not None:
            _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
            _pool.close()
            _pool.join()""")]),
 ('nojoin','bad',[(Q,"                _pool.close()\n                _pool.join()","                _pool.close()")]),
 ('except_else','bad',[(Q,FIN,"""        try:
            runSimulation(qSim, _pool)
        except ValueError:
            if _pool is not None:
                _pool.terminate()
                _pool.join()
            raise
        if _pool is not None:
            _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
            _pool.close()
            _pool.join()""")]),
 ('onlynew','bad',[(Q,"            if _pool is not None:\n                _poolMemory.coreCount","            if _pool is not None and p is not None:\n                _poolMemory.coreCount")]),
 ('changed_only','bad',[(Q,"            if _pool is not None:\n                _poolMemory.coreCount","            if _pool is not None and _poolMemory.coreCount != _pool._processes:\n                _poolMemory.coreCount")]),
 ('join_first','bad',[(Q,"                _pool.close()\n                _pool.join()","                _pool.join()\n                _pool.close()")]),
 ('open','bad',[(S,"    with open(path) as csvFile: #pylint:disable=W1514\n        csvReader = csv.reader(csvFile, delimiter=',')","    csvFile = open(path)\n    if True:\n        csvReader = csv.reader(csvFile, delimiter=',')")]),
 ('open2','bad',[(S,"    with open(path) as csvFile: #pylint:disable=W1514\n        csvReader = csv.reader(csvFile, delimiter=',')","    if True:\n        csvReader = csv.reader(open(path), delimiter=',')")]),
 ('helper','same',[(Q,FIN,"""        try:
            runSimulation(qSim, _pool)
        finally:
            cls._release(_pool)

    @staticmethod
    def _release(pool):
        if pool is None:
            return
        _poolMemory.coreCount = pool._processes
        pool.close()
        pool.join()""")]),
 ('withpool','same',[(Q,FIN,"""        if _pool is None:
            runSimulation(qSim, _pool)
            return
        with _pool:
            _poolMemory.coreCount = _pool._processes
            runSimulation(qSim, _pool)""")]),
 ('except_all','same',[(Q,FIN,"""        try:
            runSimulation(qSim, _pool)
        except BaseException:
            if _pool is not None:
                _pool.terminate()
                _pool.join()
            raise
        if _pool is not None:
            _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
            _pool.close()
            _pool.join()""")]),
 ('getpool','same',[(Q,"    @classmethod\n    def run(cls, qSim, p, coreCount): # pylint","    @staticmethod\n    def _mk(n):\n        return multiprocessing.Pool(processes=n)\n\n    @classmethod\n    def run(cls, qSim, p, coreCount): # pylint"),(Q,"_pool = multiprocessing.Pool(processes=coreCount)","_pool = cls._mk(coreCount)"),(Q,"_pool = multiprocessing.Pool(processes=multiprocessing.cpu_count()-1)","_pool = _poolMemory._mk(multiprocessing.cpu_count()-1)")]),
 ('tryclose','same',[(S,"    with open(path) as csvFile: #pylint:disable=W1514\n        csvReader = csv.reader(csvFile, delimiter=',')\n","    csvFile = open(path)\n    try:\n        csvReader = csv.reader(csvFile, delimiter=',')\n        csvReader = list(csvReader)\n    finally:\n        csvFile.close()\n    if True:\n")]),
]

T='QuantumToolbox/states.py'; L='QuantumToolbox/linearAlgebra.py'
M = [
 ('pop-nosqrt', 'bad', [(T, "sts = {k:np.sqrt(v) for (k, v) in sts.items()}", "sts = {k: v for k, v in sts.items()}")]),
 ('pop-twice', 'bad', [(T, "        if populations:", "        if not populations:")]),
 ('pop-pow', 'same', [(T, "sts = {k:np.sqrt(v) for (k, v) in sts.items()}", "sts = {k: v**0.5 for k, v in sts.items()}")]),
 ('pop-dict', 'same', [(T, "sts = {k:np.sqrt(v) for (k, v) in sts.items()}", "sts = dict(zip(sts.keys(), [np.sqrt(v) for v in sts.values()]))")]),
 ('list-index', 'bad', [(T, "sts = {k: 1 for k in excitations}", "sts = {k: i + 1 for i, k in enumerate(excitations)}")]),
 ('sorted', 'bad', [(T, "for excite in sts.keys()]", "for excite in sorted(sts.keys())]")]),
 ('norm-conj', 'bad', [(L, "overlap = (hc(ket2) @ ket1).diagonal().sum()", "overlap = (ket2.T @ ket1).diagonal().sum()")]),
 ('norm-trace', 'same', [(L, "overlap = (hc(ket2) @ ket1).diagonal().sum()", "overlap = trace(hc(ket2) @ ket1)")]),
 ('normalise-square', 'bad', [(T, "        mag = 1/linAlTrace(state)", "        mag = 1/linAlNorm(state)")]),
 ('normalise-div', 'same', [(T, "    return mag*state", "    return state*mag")]),
 ('dm-weights', 'bad', [(T, "[linAlOuterProd(k) for k in ket], probability)", "[linAlOuterProd(k) for k in ket], probability[::-1] if probability is not None else None)")]),
 ('dm-nonorm', 'bad', [(T, "return normalise(weightedSum([linAlOuterProd(k) for k in ket], probability)) if libool", "return weightedSum([linAlOuterProd(k) for k in ket], probability) if libool")]),
 ('bell', 'bad', [(T, "elif bs in ['Psi-', '11']:\n        BellState = (1/np.sqrt(2))*np.array([[0], [1], [-1], [0]])", "elif bs in ['Psi-', '11']:\n        BellState = (1/np.sqrt(2))*np.array([[1], [0], [0], [-1]])")]),
 ('comp-rev', 'bad', [(T, "for (dim, exs) in zip(dimensions, excitations)])", "for dim, exs in zip(dimensions[::-1], excitations[::-1])])")]),
 ('comp-loop', 'same', [(T, "    st = linAlTensorProd(*[superPos(dim, exs) for (dim, exs) in zip(dimensions, excitations)])", "    parts = []\n    for i, dim in enumerate(dimensions):\n        parts.append(superPos(dim, excitations[i]))\n    st = linAlTensorProd(*parts)")]),
 ('tensor', 'bad', [(L, "sp.kron(totalProd, tensorProd(*args[1:]), format='csc')", "sp.kron(tensorProd(*args[1:]), totalProd, format='csc')")]),
 ('cb', 'bad', [(T, "[basis(dimension, i, sparse) for i in range(dimension)]", "[basis(dimension, i, sparse) for i in range(1, dimension)]")]),
 ('sys-coef', 'bad', [('classes/QSystem.py', "superPos(self.dimension, inp, not self._inpCoef)", "superPos(self.dimension, inp)")]),
 ('sys-order', 'bad', [('classes/QSystem.py', "for ind, qsys in enumerate(self.subSys.values())]  # pylint: disable=protected-access,line-too-long", "for ind, qsys in enumerate(reversed(list(self.subSys.values())))]  # pylint: disable=protected-access,line-too-long")]),
 ('sys-zip', 'same', [('classes/QSystem.py', "[qsys._createInitialState(inp[ind], qsys.simulation._setGetMaxInput(inp[ind])) for ind, qsys in enumerate(self.subSys.values())]", "[qsys._createInitialState(i, qsys.simulation._setGetMaxInput(i)) for i, qsys in zip(inp, self.subSys.values())]")]),
 ('qsys-coef', 'bad', [('classes/QSys.py', "return qSta.superPos(self.dimension, inp, not self._inpCoef)", "return qSta.superPos(self.dimension, inp, self._inpCoef)")]),
 ('cbm', 'bad', [(T, "        compBase[i] = densityMatrix(state)", "        compBase[i] = densityMatrix(compBase[0])")]),
]

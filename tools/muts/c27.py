F = 'QuantumToolbox/functions.py'
L = 'QuantumToolbox/linearAlgebra.py'
T = 'QuantumToolbox/thermodynamics.py'
I = 'QuantumToolbox/IPR.py'
V = 'QuantumToolbox/eigenVecVal.py'
M = [
 ('exp_real', 'bad', [(F, "return np.real(expc) if np.round(expc.imag, 12) == 0.0 else expc", "return np.real(expc)")]),
 ('exp_transposed', 'bad', [(F, "expc = trace(operator @ state)", "expc = trace(operator @ state.T)")]),
 ('exp_conj_op', 'bad', [(F, "expc = trace(operator @ state)", "expc = trace(hc(operator) @ state)")]),
 ('exp_swapped', 'same', [(F, "expc = trace(operator @ state)", "expc = trace(state @ operator)")]),
 ('exp_inner', 'same', [(F, "    expc = trace(operator @ state)", "    prod = operator @ state\n    expc = prod.diagonal().sum()")]),
 ('fid_nosquare', 'bad', [(F, "fid = np.round(abs(innerProd(state1, state2)), 20)**2", "fid = np.round(abs(innerProd(state1, state2)), 20)")]),
 ('fid_nocomplex', 'bad', [(F, "fid = np.round(abs(innerProd(state1, state2)), 20)**2", "fid = np.real(innerProd(state1, state2))**2")]),
 ('fid_abs2', 'same', [(F, "fid = np.round(abs(innerProd(state1, state2)), 20)**2", "ov = innerProd(state1, state2)\n        fid = np.real(ov*np.conj(ov))")]),
 ('fid_transposed', 'bad', [(F, "fid = np.real(trace(state1 @ state2))", "fid = np.real(trace(state1.T @ state2))")]),
 ('fid_conj', 'same', [(F, "fid = np.real(trace(state1 @ state2))", "fid = np.real(trace(hc(state1) @ state2))")]),
 ('ent_wrongbase', 'bad', [(F, "    if not base2:\n        logvals", "    if base2:\n        logvals")]),
 ('ent_sign', 'bad', [(F, "S = float(np.real(-sum(nzvals * logvals)))", "S = float(np.real(sum(nzvals * logvals)))")]),
 ('ent_nomask', 'bad', [(F, "nzvals = vals[vals != 0]", "nzvals = vals")]),
 ('ent_posmask', 'same', [(F, "nzvals = vals[vals != 0]", "vals = np.real(vals)\n    nzvals = vals[vals > 0]")]),
 ('ent_ratio', 'same', [(F, "logvals = np.log2(nzvals)", "logvals = np.log(nzvals)/np.log(2)")]),
 ('ent_eigh', 'same', [(F, "vals = lina.eig(densMat)[0]", "vals = lina.eigvalsh(densMat)")]),
 ('td_nohalf', 'bad', [(F, "return np.real(0.5 * np.sum(np.sqrt(np.abs(vals))))", "return np.real(np.sum(np.sqrt(np.abs(vals))))")]),
 ('td_nosqrt', 'bad', [(F, "return np.real(0.5 * np.sum(np.sqrt(np.abs(vals))))", "return np.real(0.5 * np.sum(np.abs(vals)))")]),
 ('td_direct', 'same', [(F, "    diff = hc(diff) @ diff\n", ""), (F, "return np.real(0.5 * np.sum(np.sqrt(np.abs(vals))))", "return np.real(0.5 * np.sum(np.abs(vals)))")]),
 ('td_sum', 'bad', [(F, "    diff = A-B\n", "    diff = A+B\n")]),
 ('con_noconj', 'bad', [(F, "magicConj = SySy @ state.conj() @ SySy\n    R = state", "magicConj = SySy @ state @ SySy\n    R = state")]),
 ('con_T', 'same', [(F, "magicConj = SySy @ state.conj() @ SySy\n    R = state", "magicConj = SySy @ state.T @ SySy\n    R = state")]),
 ('con_order', 'bad', [(F, "eigVals[3] - eigVals[2] - eigVals[1] - eigVals[0]", "eigVals[0] - eigVals[1] - eigVals[2] - eigVals[3]")]),
 ('con_sum', 'same', [(F, "eigVals[3] - eigVals[2] - eigVals[1] - eigVals[0]", "2*eigVals[3] - np.sum(eigVals)")]),
 ('con_unclipped', 'bad', [(F, "return max([0, np.round(eigVals[3] - eigVals[2] - eigVals[1] - eigVals[0], 15)])", "return np.round(eigVals[3] - eigVals[2] - eigVals[1] - eigVals[0], 15)")]),
 ('con_nosqrt', 'bad', [(F, "eigVals = np.real(np.sqrt(eigValList))", "eigVals = np.real(eigValList)")]),
 ('std_nosquare', 'bad', [(F, "return np.sqrt(SqExp - (expSq**2)) if not expect", "return np.sqrt(SqExp - expSq) if not expect")]),
 ('std_abs', 'same', [(F, "SqExp = expectation(_matPower(operator, 2), state)", "SqExp = expectation(operator @ operator, state)")]),
 ('std_tuple', 'bad', [(F, "else (np.sqrt(SqExp - (expSq**2)), expSq)", "else (np.sqrt(SqExp - (expSq**2)), SqExp)")]),
 ('norm_nosqrt', 'bad', [(F, "return (np.sqrt(np.real(max(vals))), vals)", "return (np.real(max(vals)), vals)")]),
 ('norm_transposed', 'bad', [(F, "sortedEigens(hc(operator)@operator)", "sortedEigens(operator.T@operator)")]),
 ('norm_other', 'same', [(F, "sortedEigens(hc(operator)@operator)", "sortedEigens(operator@hc(operator))")]),
 ('sort_rows', 'bad', [(F, "sortedVecs = eigVecs[:, idx]", "sortedVecs = eigVecs[idx, :]")]),
 ('sort_takerows', 'bad', [(F, "mat2Vec(sortedVecs[:, ind])", "mat2Vec(sortedVecs[ind, :])")]),
 ('sort_unsorted', 'bad', [(F, "mat2Vec(sortedVecs[:, ind])", "mat2Vec(eigVecs[:, ind])")]),
 ('sort_mag', 'bad', [(F, "        mags = np.abs(eigVals)\n        idx = mags.argsort()", "        mags = np.real(eigVals)\n        idx = mags.argsort()")]),
 ('sort_np', 'same', [(F, "        idx = mags.argsort()", "        idx = np.argsort(mags)")]),
 ('col_T', 'bad', [(F, "expMat = hc(states) @ operator @ states", "expMat = states.T @ operator @ states")]),
 ('pt_other', 'bad', [(L, "idx2 = [Ndim+i if i in keep else i for i in range(Ndim)]", "idx2 = [i if i in keep else Ndim+i for i in range(Ndim)]")]),
 ('pt_transposed', 'bad', [(L, "rhoA = np.einsum(rhoA, idx1+idx2, optimize=False)", "rhoA = np.einsum(rhoA, idx2+idx1, optimize=False)")]),
 ('pt_shape', 'bad', [(L, "rhoA = rho.reshape(np.tile(dims, 2))", "rhoA = rho.reshape(np.tile(dims[::-1], 2))")]),
 ('pt_explicit', 'same', [(L, "rhoA = np.einsum(rhoA, idx1+idx2, optimize=False)", "out = [i for i in range(Ndim) if i in keep] + [Ndim+i for i in range(Ndim) if i in keep]\n    rhoA = np.einsum(rhoA, idx1+idx2, out)")]),
 ('pt_loop', 'same', [(L, "idx2 = [Ndim+i if i in keep else i for i in range(Ndim)]", "idx2 = []\n    for i in range(Ndim):\n        idx2.append(Ndim+i if i in keep else i)")]),
 ('pt_ket', 'bad', [(L, "rho = (rho @ hc(rho))", "rho = (rho @ rho.T)")]),
 ('tp_order', 'bad', [(L, "return sp.kron(totalProd, tensorProd(*args[1:]), format='csc')", "return sp.kron(tensorProd(*args[1:]), totalProd, format='csc')")]),
 ('mm_order', 'bad', [(L, "return (totalMul @ _matMulInputs(*args[1:]))", "return (_matMulInputs(*args[1:]) @ totalMul)")]),
 ('mp_one', 'bad', [(L, "_matPower(matrix, power-1)) if power > 1", "_matPower(matrix, power-1)) if power > 2")]),
 ('mp_loop', 'same', [(L, "    matPow = matrix\n    return (matPow @ _matPower(matrix, power-1)) if power > 1 else matPow", "    matPow = matrix\n    for _ in range(power-1):\n        matPow = matPow @ matrix\n    return matPow")]),
 ('nbar_plus', 'bad', [(T, "return 1.0 / (exp((hbar*angFreq) / (temp*kb)) - 1)", "return 1.0 / (exp((hbar*angFreq) / (temp*kb)) + 1)")]),
 ('nbar_kb', 'bad', [(T, "return 1.0 / (exp((hbar*angFreq) / (temp*kb)) - 1)", "return 1.0 / (exp((hbar*angFreq) / temp*kb) - 1)")]),
 ('nbar_var', 'same', [(T, "return 1.0 / (exp((hbar*angFreq) / (temp*kb)) - 1)", "x = hbar*angFreq/temp/kb\n    return exp(-x)/(1 - exp(-x))")]),
 ('pol_sign', 'bad', [(T, "return 1 - (2*groundPop)", "return (2*groundPop) - 1")]),
 ('pol_excited', 'same', [(T, "return 1 - (2*groundPop)", "return (1 - groundPop) - groundPop")]),
 ('heat_first', 'bad', [(T, "derivative = vec2Mat(Lindbladian @ mat2Vec(denMat))", "derivative = vec2Mat(Lindbladian @ mat2Vec(denMat.T))")]),
 ('heat_order', 'same', [(T, "real(trace(derivative @ Hamiltonian))", "real(trace(Hamiltonian @ derivative))")]),
 ('ipr_nosq', 'bad', [(I, "fidelityPure(basKet, ket)**2", "fidelityPure(basKet, ket)")]),
 ('ipr_loop', 'same', [(I, "    return 1/sum(fidelityPure(basKet, ket)**2 for basKet in basis)", "    tot = 0\n    for basKet in basis:\n        tot += fidelityPure(basKet, ket)**2\n    return 1/tot")]),
 ('iprnb_two', 'bad', [(I, "np.power((np.abs(ket.flatten())), 4)", "np.power((np.abs(ket.flatten())), 2)")]),
 ('iprnb_real', 'bad', [(I, "np.power((np.abs(ket.flatten())), 4)", "np.power(np.real(ket.flatten()), 4)")]),
 ('iprnb_sq', 'same', [(I, "np.power((np.abs(ket.flatten())), 4)", "(np.abs(ket.flatten())**2)**2")]),
 ('stat_real', 'bad', [(V, "return (np.abs(_eigs(Mat)[1].flatten()))**2 if", "return (np.real(_eigs(Mat)[1].flatten()))**2 if")]),
 ('statk_pairs', 'bad', [(V, "symStat.append(regStat[elSymplectic+1] + regStat[elSymplectic])\n            elSymplectic += 2", "symStat.append(regStat[elSymplectic+1] + regStat[elSymplectic])\n            elSymplectic += 1")]),
]
M += [('sort_conj', 'bad', [('QuantumToolbox/functions.py', 'sortedVecsMat = [mat2Vec(sortedVecs[:, ind]) for ind in range(len(sortedVecs))]', 'sortedVecsMat = [mat2Vec(vec) for vec in np.conj(sortedVecs.T)]')]),
      ('sort_T', 'same', [('QuantumToolbox/functions.py', 'sortedVecsMat = [mat2Vec(sortedVecs[:, ind]) for ind in range(len(sortedVecs))]', 'sortedVecsMat = [mat2Vec(vec) for vec in sortedVecs.T]')]),
      ('sort_noT', 'bad', [('QuantumToolbox/functions.py', 'sortedVecsMat = [mat2Vec(sortedVecs[:, ind]) for ind in range(len(sortedVecs))]', 'sortedVecsMat = [mat2Vec(vec) for vec in sortedVecs]')]),
      ('ent_log10', 'bad', [('QuantumToolbox/functions.py', 'logvals = np.log2(nzvals)', 'logvals = np.log10(nzvals)')]),
      ('ent_log10r', 'same', [('QuantumToolbox/functions.py', 'logvals = np.log2(nzvals)', 'logvals = np.log10(nzvals)/np.log10(2)')])]

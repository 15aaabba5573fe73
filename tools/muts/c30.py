P = 'QuantumToolbox/quasiProbabilities.py'
H = 'QuantumToolbox/Hamiltonians.py'
M = [
 ('w_alias', 'bad', [(P, "temp = copy(Wlist[m])", "temp = Wlist[m]")]),
 ('w_alias2', 'bad', [(P, "temp = copy(Wlist[n])", "temp = Wlist[n]")]),
 ('w_conj', 'bad', [(P, "Wlist[m] = (2 * conj(A) * temp", "Wlist[m] = (2 * A * temp")]),
 ('w_diag', 'bad', [(P, "W += real(rho[m, m] * Wlist[m])", "W += 2 * real(rho[m, m] * Wlist[m])")]),
 ('w_conjrho', 'bad', [(P, "W += 2 * real(rho[m, n] * Wlist[n])", "W += 2 * real(rho[n, m] * Wlist[n])")]),
 ('w_realrho', 'bad', [(P, "W += 2 * real(rho[m, n] * Wlist[n])", "W += 2 * real(rho[m, n]) * real(Wlist[n])")]),
 ('w_sqrtn', 'bad', [(P, "- np.sqrt(m) * temp) / np.sqrt(n)", "- np.sqrt(m) * temp) / np.sqrt(m)")]),
 ('w_off', 'bad', [(P, "for n in range(m + 1, M):", "for n in range(m + 1, M - 1):")]),
 ('w_g', 'bad', [(P, "return W * g ** 2", "return W * g")]),
 ('w_half', 'bad', [(P, "A = 0.5 * g * (X + 1.0j * Y)", "A = 0.5 * (X + 1.0j * Y)")]),
 ('w_swap', 'bad', [(P, "X, Y = meshgrid(vec, vec)\n    A =", "Y, X = meshgrid(vec, vec)\n    A =")]),
 ('w_dtype', 'bad', [(P, "zeros(np.shape(A), dtype=complex)", "zeros(np.shape(A))")]),
 ('w_ket', 'bad', [(P, "        rho = densityMatrix(rho)", "        rho = rho @ rho.T")]),
 ('w_default', 'bad', [(P, "def Wigner(rho: Matrix, vec: ndOrList, g: float = np.sqrt(2))", "def Wigner(rho: Matrix, vec: ndOrList, g: float = 2)")]),
 ('w_shared', 'bad', [(P, "Wlist = array([zeros(np.shape(A), dtype=complex) for k in range(M)])", "Wlist = [zeros(np.shape(A), dtype=complex)] * M"), (P, "Wlist[0] = exp(-2.0 * abs(A) ** 2) / pi", "Wlist[0][:] = exp(-2.0 * abs(A) ** 2) / pi"), (P, "        Wlist[n] = (2.0 * A", "        Wlist[n][:] = (2.0 * A")]),
 ('w_list', 'same', [(P, "Wlist = array([zeros(np.shape(A), dtype=complex) for k in range(M)])", "Wlist = [None for k in range(M)]")]),
 ('w_zeros', 'same', [(P, "Wlist = array([zeros(np.shape(A), dtype=complex) for k in range(M)])", "Wlist = zeros((M,) + np.shape(A), dtype=complex)")]),
 ('w_notemp2', 'same', [(P, "            temp2 = (2 * A * Wlist[n - 1] - np.sqrt(m) * temp) / np.sqrt(n)\n            temp = copy(Wlist[n])\n            Wlist[n] = temp2", "            old = Wlist[n].copy()\n            Wlist[n] = (2 * A * Wlist[n - 1] - np.sqrt(m) * temp) / np.sqrt(n)\n            temp = old")]),
 ('w_sum', 'same', [(P, "            W += 2 * real(rho[m, n] * Wlist[n])\n    return W * g ** 2", "            W = W + (rho[m, n] * Wlist[n] + conj(rho[m, n] * Wlist[n])).real\n    W *= g * g\n    return W")]),
 ('w_exp', 'same', [(P, "exp(-2.0 * abs(A) ** 2) / pi", "np.exp(-2.0 * (A.real ** 2 + A.imag ** 2)) / np.pi")]),
 ('w_xy', 'same', [(P, "    X, Y = meshgrid(vec, vec)\n    A = 0.5 * g * (X + 1.0j * Y)\n", "    Y, X = meshgrid(vec, vec, indexing='ij')\n    A = (X + 1.0j * Y) * g / 2\n")]),
 ('q_eig', 'bad', [(P, "la.eigh(state)", "la.eig(state)")]),
 ('q_T', 'bad', [(P, "psi = psi.flatten()", "psi = psi.T")]),
 ('q_rows', 'bad', [(P, "_qfuncPure(v[:, k], amat)", "_qfuncPure(v[k], amat)")]),
 ('q_conj', 'bad', [(P, "[0], conjugate(alphaMat))", "[0], alphaMat)")]),
 ('q_fact', 'bad', [(P, "np.sqrt(factorial(arange(n)))", "factorial(arange(n))")]),
 ('q_pi', 'bad', [(P, "exp(-abs(alphaMat) ** 2) / pi", "exp(-abs(alphaMat) ** 2)")]),
 ('q_quarter', 'bad', [(P, "qmat = 0.25 * qmat * g ** 2", "qmat = 0.5 * qmat * g ** 2")]),
 ('q_order', 'bad', [(P, "fliplr([psi / np.sqrt(factorial(arange(n)))])[0]", "(psi / np.sqrt(factorial(arange(n))))")]),
 ('q_lam', 'bad', [(P, "qmat += real(d[k] * qmat1)", "qmat += real(d[k] ** 2 * qmat1)")]),
 ('q_purestate', 'bad', [(P, "for k in arange(0, len(d)):", "for k in arange(1, len(d)):")]),
 ('q_dense', 'bad', [(P, "    if not isinstance(state, np.ndarray):\n        state = state.toarray()", "    if isinstance(state, list):\n        state = state.toarray()")]),
 ('q_herm', 'same', [(P, "la.eigh(state)", "np.linalg.eigh(state)")]),
 ('q_zip', 'same', [(P, "        for k in arange(0, len(d)):\n            qmat1 = _qfuncPure(v[:, k], amat)\n            qmat += real(d[k] * qmat1)", "        for lam, vec_ in zip(d, v.T):\n            qmat = qmat + lam * _qfuncPure(vec_, amat)")]),
 ('q_loop', 'same', [(P, "    qmat = abs(polyval(fliplr([psi / np.sqrt(factorial(arange(n)))])[0], conjugate(alphaMat))) ** 2\n", "    amp = 0\n    for k in range(n):\n        amp = amp + psi[k] * conjugate(alphaMat) ** k / np.sqrt(factorial(k))\n    qmat = abs(amp) ** 2\n")]),
 ('q_rev', 'same', [(P, "fliplr([psi / np.sqrt(factorial(arange(n)))])[0]", "(psi / np.sqrt(factorial(arange(n))))[::-1]")]),
 ('q_direct', 'same', [(P, "        d, v = la.eigh(state)\n", "        d, v = la.eigh(0.5 * (state + state.conj().T))\n")]),
 ('h_swap', 'bad', [(H, "couplingJC = g*(sp.kron(sigmam(), create(cavDim)", "couplingJC = g*(sp.kron(sigmap(), create(cavDim)"), (H, "sp.kron(sigmap(), destroy(cavDim), format='csc'))\n    JCHamil", "sp.kron(sigmam(), destroy(cavDim), format='csc'))\n    JCHamil")]),
 ('h_order', 'bad', [(H, "couplingRabi = g*(sp.kron(sigmax(), create(cavDim) + destroy(cavDim), format='csc'))", "couplingRabi = g*(sp.kron(create(cavDim) + destroy(cavDim), sigmax(), format='csc'))")]),
 ('h_nofree', 'bad', [(H, "rabiHam = cavHam + qubHam + couplingRabi", "rabiHam = cavHam + couplingRabi")]),
 ('h_half', 'bad', [(H, "qubHam = qubFreq * sp.kron", "qubHam = qubFreq/2 * sp.kron")]),
 ('h_g', 'bad', [(H, "couplingAJC = g*(sp.kron(sigmap(), create(cavDim), format='csc') + sp.kron(sigmam(), destroy(cavDim), format='csc'))", "couplingAJC = g*sp.kron(sigmap(), create(cavDim), format='csc') + sp.kron(sigmam(), destroy(cavDim), format='csc')")]),
 ('h_swapret', 'bad', [(H, "return cavHam, qubHam", "return qubHam, cavHam")]),
 ('h_sum', 'same', [(H, "rabiHam = cavHam + qubHam + couplingRabi", "rabiHam = sum([cavHam, qubHam], couplingRabi)")]),
 ('h_rabi', 'same', [(H, "sp.kron(sigmax(), create(cavDim) + destroy(cavDim), format='csc')", "(sp.kron(sigmax(), create(cavDim), format='csc') + sp.kron(sigmax(), destroy(cavDim), format='csc'))")]),
 ('u_sign', 'bad', [(H, "U[0, 0] = (np.cos(D/2*t)+1j*np.sin(D/2*t))", "U[0, 0] = (np.cos(D/2*t)-1j*np.sin(D/2*t))")]),
 ('u_detuning', 'bad', [(H, "D = wq-wc", "D = wc-wq")]),
 ('u_top', 'bad', [(H, "np.exp(-1j*wc*(dimC-0.5)*t)", "np.exp(-1j*wc*(dimC-1.5)*t)")]),
 ('u_real', 'bad', [(H, "dtype=np.complex128", "dtype=np.float64")]),
 ('u_range', 'bad', [(H, "n = np.arange(1, dimC)", "n = np.arange(1, dimC-1)")]),
 ('u_omega', 'same', [(H, "    D = wq-wc\n", "    D = wq-wc\n    half = D/2\n"), (H, "U[0, 0] = (np.cos(D/2*t)+1j*np.sin(D/2*t))*np.exp(1j*wc*0.5*t)", "U[0, 0] = np.exp(1j*half*t)*np.exp(1j*wc*0.5*t)")]),
 ('u_loop', 'same', [(H, "    U[2*n, 2*n-1] = -1j*n**0.5*g*np.sin((n*g**2+D**2/4)**0.5*t)/(n*g**2+D**2/4)**0.5*np.exp(-1j*wc*(n-0.5)*t)\n", "    for k in range(1, dimC):\n        om = np.sqrt(k*g**2+D**2/4)\n        U[2*k, 2*k-1] = -1j*np.sqrt(k)*g*np.sin(om*t)/om*np.exp(-1j*wc*(k-0.5)*t)\n")]),
 ('u_rabi2', 'same', [(H, "U[2*n-1, 2*n] = -1j*n**0.5*g*np.sin((n*g**2+D**2/4)**0.5*t)/(n*g**2+D**2/4)**0.5*np.exp(-1j*wc*(n-0.5)*t)", "U[2*n-1, 2*n] = U[2*n, 2*n-1]")]),
 ('u_four', 'same', [(H, "U[2*n-1, 2*n] = -1j*n**0.5*g*np.sin((n*g**2+D**2/4)**0.5*t)/(n*g**2+D**2/4)**0.5*np.exp(-1j*wc*(n-0.5)*t)", "U[2*n-1, 2*n] = -2j*n**0.5*g*np.sin((4*n*g**2+D**2)**0.5*t/2)/(4*n*g**2+D**2)**0.5*np.exp(-1j*wc*(n-0.5)*t)")]),
]

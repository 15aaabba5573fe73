R = 'QuantumToolbox/rmtDistributions.py'
M = [
 ('b4_old', 'bad', [(R, "dist = x*((1-x)**(dim - 3))", "dist = x*((1-x)**(dim - 1))")]),
 ('b4_nox', 'bad', [(R, "dist = x*((1-x)**(dim - 3))", "dist = (1-x)**(dim - 3)")]),
 ('b2_coef', 'bad', [(R, "coef = (dim - 1)\n", "coef = dim\n")]),
 ('b2_exp', 'bad', [(R, "dist = (1 - x)**(dim - 2)", "dist = (1 - x)**(dim - 1)")]),
 ('b1_swap', 'bad', [(R, "gammaln(dim/2) - gammaln((dim-1)/2)", "gammaln((dim-1)/2) - gammaln(dim/2)")]),
 ('b1_pi', 'bad', [(R, "(np.sqrt(np.pi*x))", "np.sqrt(x)")]),
 ('b1_shift', 'same', [(R, "gammaln(dim/2) - gammaln((dim-1)/2)", "gammaln(dim/2+1) - np.log(dim/2) - gammaln((dim-1)/2)")]),
 ('b1_exp', 'same', [(R, "coef = np.e**(gammaln(dim/2) - gammaln((dim-1)/2))", "coef = np.exp(gammaln(dim/2))/np.exp(gammaln((dim-1)/2))")]),
 ('b1_split', 'same', [(R, "dist = ((1 - x)**((dim-3)/2))/(np.sqrt(np.pi*x))", "dist = np.sqrt(1-x)**(dim-3)/np.sqrt(np.pi)/np.sqrt(x)")]),
 ('b4_expanded', 'same', [(R, "coef = (dim - 1)*(dim - 2)", "coef = dim**2 - 3*dim + 2")]),
 ('wd1', 'bad', [(R, "np.exp(-np.pi*(x**2)*0.25)", "np.exp(-np.pi*(x**2)*0.5)")]),
 ('wd1_coef', 'bad', [(R, "val = (np.pi/2)*(x**beta)", "val = np.pi*(x**beta)")]),
 ('wd2', 'bad', [(R, "32/(np.pi**2)", "32/(np.pi**3)")]),
 ('wd4', 'bad', [(R, "(2**18)/((3**6)*(np.pi**3))", "(2**18)/((3**5)*(np.pi**3))")]),
 ('wd4_scale', 'bad', [(R, "np.exp(-64*(x**2)/(9*np.pi))", "np.exp(-64*(x**2)/(3*np.pi))")]),
 ('wd0', 'bad', [(R, "val = np.exp(-x)", "val = np.exp(-x**2)")]),
 ('wd0_e', 'same', [(R, "val = np.exp(-x)", "val = np.e**(-x)")]),
 ('wd2_frac', 'same', [(R, "val = ((x**beta)*(32/(np.pi**2)))*np.exp(-4*(x**2)/(np.pi))", "val = 32*(x/np.pi)**2*np.exp(-(2*x)**2/np.pi)")]),
 ('po_gamma', 'bad', [(R, "gammaln(x+1)", "gammaln(x)")]),
 ('po_sign', 'bad', [(R, "(np.e**(-lam))", "(np.e**(lam))")]),
 ('po_joined', 'same', [(R, "return ((np.e**(-gammaln(x+1)))*(lam**x))*(np.e**(-lam))", "return np.exp(x*np.log(lam) - lam - gammaln(x+1))")]),
]
M += [('b1_floor', 'bad', [('QuantumToolbox/rmtDistributions.py', '(1 - x)**((dim-3)/2)', '(1 - x)**((dim-3)//2)')]),
      ('b2_floor', 'same', [('QuantumToolbox/rmtDistributions.py', 'dist = (1 - x)**(dim - 2)', 'dist = (1 - x)**((2*dim - 4)//2)')])]

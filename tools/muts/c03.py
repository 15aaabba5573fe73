O='QuantumToolbox/operators.py'
JP="""    data = [np.sqrt((j+m[i])*(j-m[i]+1)) for i in range(len(m)-1)]
    rows = range(0, d-1)
    columns = range(1, d)"""
M = [
 ('number-off', 'bad', [(O, "data = list(range(dimension))", "data = list(range(1, dimension + 1))")]),
 ('number-arange', 'same', [(O, "data = list(range(dimension))", "data = np.arange(dimension)")]),
 ('number-float', 'same', [(O, "data = list(range(dimension))", "data = [1.0*k for k in range(0, dimension)]")]),
 ('destroy-i', 'bad', [(O, "    data = [np.sqrt(i+1) for i in range(dimension-1)]\n    rows = range(0, dimension-1)", "    data = [np.sqrt(i) for i in range(dimension-1)]\n    rows = range(0, dimension-1)")]),
 ('destroy-rows', 'bad', [(O, "    rows = range(0, dimension-1)\n    columns = range(1, dimension)", "    rows = range(1, dimension)\n    columns = range(0, dimension-1)")]),
 ('destroy-np', 'same', [(O, "    data = [np.sqrt(i+1) for i in range(dimension-1)]\n    rows = range(0, dimension-1)", "    data = np.sqrt(np.arange(1, dimension))\n    rows = np.arange(dimension-1)")]),
 ('create-adj', 'same', [(O, "    data = [np.sqrt(i+1) for i in range(dimension-1)]\n    rows = range(1, dimension)\n    columns = range(0, dimension-1)\n    n = sp.csc_matrix((data, (rows, columns)), shape=(dimension, dimension))", "    n = destroy(dimension).T.tocsc()")]),
 ('jp-m', 'bad', [(O, "def Jp(", "def _z(q):\n    return q\n\ndef Jp("), (O, JP, JP.replace("(j-m[i]+1)", "(j-m[i])"))]),
 ('jp-split', 'same', [(O, JP, JP.replace("np.sqrt((j+m[i])*(j-m[i]+1))", "np.sqrt(j*(j+1) - m[i]*(m[i]-1))"))]),
 ('jp-two', 'same', [(O, JP, JP.replace("np.sqrt((j+m[i])*(j-m[i]+1))", "np.sqrt(j+m[i])*np.sqrt(j-m[i]+1)"))]),
 ('jp-loop', 'same', [(O, JP, """    data = []
    for i in range(d-1):
        mi = j - i
        data.append(np.sqrt((j+mi)*(j-mi+1)))
    rows = list(range(d-1))
    columns = [r + 1 for r in rows]""")]),
 ('jp-round0', 'bad', [(O, "        j = round((d-1)/2, 1)\n    m = [j-i for i in range(d)]\n    data = [np.sqrt((j+m[i])*(j-m[i]+1)) for i in range(len(m)-1)]\n    rows = range(0, d-1)", "        j = round((d-1)/2)\n    m = [j-i for i in range(d)]\n    data = [np.sqrt((j+m[i])*(j-m[i]+1)) for i in range(len(m)-1)]\n    rows = range(0, d-1)")]),
 ('jz-floor', 'bad', [(O, "        j = round((d-1)/2, 1)\n    data = [j-i for i in range(d)]", "        j = (d-1)//2\n    data = [j-i for i in range(d)]")]),
 ('jz-half', 'same', [(O, "        j = round((d-1)/2, 1)\n    data = [j-i for i in range(d)]", "        j = 0.5*d - 0.5\n    data = np.arange(j, j-d, -1)")]),
 ('jz-rev', 'bad', [(O, "    data = [j-i for i in range(d)]", "    data = [-j+i for i in range(d)]")]),
 ('jz-linspace', 'same', [(O, "    data = [j-i for i in range(d)]", "    data = np.linspace(j, -j, d)")]),
 ('sy-sign', 'bad', [(O, "data = [-1j, 1j]", "data = [1j, -1j]")]),
 ('sm-adj', 'same', [(O, "    data = [1]\n    rows = [1]\n    columns = [0]\n    n = sp.csc_matrix((data, (rows, columns)), shape=(2, 2))", "    n = sigmap().T")]),
 ('jy-order', 'bad', [(O, "n = (1/(2j))*(Jp(j, isDim=isDim) - Jm(j, isDim=isDim))", "n = 1/(2j)*(Jm(j, isDim=isDim) - Jp(j, isDim=isDim))")]),
 ('jx-isdim', 'bad', [(O, "n = 0.5*(Jp(j, isDim=isDim) + Jm(j, isDim=isDim))", "n = 0.5*(Jp(j, isDim=isDim) + Jm(j))")]),
]

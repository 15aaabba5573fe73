E='QuantumToolbox/evolution.py'; R='QuantumToolbox/spinRotations.py'; B='QuantumToolbox/basicGates.py'; O='QuantumToolbox/operators.py'
G='classes/QGates.py'; P='classes/QPro.py'
M=[
 ('sign_sp','bad',[(E,'slinA.expm(-1j * Hamiltonian * timeStep)','slinA.expm(1j * Hamiltonian * timeStep)')]),
 ('step_dn','bad',[(E,'= linA.expm(-1j * Hamiltonian * timeStep)','= linA.expm(-1j * Hamiltonian)')]),
 ('yx','bad',[(R,'rotUnitary = yRotation(angle, sparse)','rotUnitary = xRotation(angle, sparse)')]),
 ('Upper','bad',[(R,"    elif xyz.lower() == 'z':\n        rotOp = Jz","    elif xyz.lower() == 'z':\n        rotOp = Jy")]),
 ('zsign','bad',[(R,'1j * round(np.sin(angle), 15) * sigmaz','1j * round(np.cos(angle), 15) * sigmaz')]),
 ('half','bad',[(R,"    angle = angle / 2\n    rotUnitary = round(np.cos(angle), 15) * identity(2, sparse) - 1j * round(np.sin(angle), 15) * sigmay","    rotUnitary = round(np.cos(angle), 15) * identity(2, sparse) - 1j * round(np.sin(angle), 15) * sigmay")]),
 ('axset','bad',[(G,"        elif axStr.lower() == 'y':\n            rotationOp = operators.Jy","        elif axStr.lower() == 'y':\n            rotationOp = operators.Jx")]),
 ('phase','bad',[(G,"flipUn = evolution.Unitary(self.phase*self.angle*flipOpN) @ flipUn","flipUn = evolution.Unitary(self.angle*flipOpN) @ flipUn")]),
 ('isDim','bad',[(G,"rotOp(sys[i+1].dimension, isDim=True)","rotOp(sys[i+1].dimension)")]),
 ('dims0','bad',[(G,"                                                sys[i+1]._dimsBefore, sys[i+1]._dimsAfter)","                                                sys[0]._dimsBefore, sys[i+1]._dimsAfter)")]),
 ('skip','bad',[(G,"            for i in range(len(sys)-1):\n                flipOpN","            for i in range(len(sys)-2):\n                flipOpN")]),
 ('instax','bad',[(G,"rotOp = spinRotations.zRotation","rotOp = spinRotations.yRotation")]),
 ('instlast','bad',[(G,"                flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter) @ flipOp","                flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter)")]),
 ('ratio','bad',[(P,"timeStep=((self.simulation.stepSize*self.ratio)/self.simulation.samples)","timeStep=((self.simulation.stepSize)/self.simulation.samples)")]),
 ('samples','bad',[(P,"timeStep=((self.simulation.stepSize*self.ratio)/self.simulation.samples)","timeStep=(self.simulation.stepSize*self.ratio)")]),
 ('disp','bad',[(O,"(np.conj(alpha) * destroy(dim))","(alpha * destroy(dim))")]),
 ('sq','bad',[(O,"expm(0.5 * oper)","expm(oper)")]),
 ('sqc','bad',[(O,"np.conj(alpha) * (destroy(dim) @ destroy(dim))","np.conj(alpha) * (destroy(dim) @ create(dim))")]),
 ('cnot','bad',[(B,"columns = [0, 1, 3, 2]","columns = [1, 0, 3, 2]")]),
 ('had','bad',[(B,"1 / np.sqrt(2), -1 / np.sqrt(2)]","1 / np.sqrt(2), 1 / np.sqrt(2)]")]),
 ('cph','bad',[(B,"np.exp(1j * phase)","np.exp(phase)")]),
 ('par','bad',[(O,"parEX = ((1j * np.pi)","parEX = ((np.pi)")]),
 ('order','same',[(E,'slinA.expm(-1j * Hamiltonian * timeStep)','slinA.expm(Hamiltonian * (timeStep * -1j))')]),
 ('ratio2','same',[(P,"timeStep=((self.simulation.stepSize*self.ratio)/self.simulation.samples)","timeStep=self.ratio*(self.simulation.stepSize/self.simulation.samples)")]),
 ('dict','same',[(R,"    if xyz.lower() == 'x':\n        rotOp = Jx\n    elif xyz.lower() == 'y':\n        rotOp = Jy\n    elif xyz.lower() == 'z':\n        rotOp = Jz\n    else:\n        raise ValueError(xyz + ' is not supported')","    ops = {'x': Jx, 'y': Jy, 'z': Jz}\n    if xyz.lower() not in ops:\n        raise ValueError(xyz + ' is not supported')\n    rotOp = ops[xyz.lower()]")]),
 ('loop','same',[(G,"            for i in range(len(sys)-1):\n                flipOpN = operators.compositeOp(rotOp(sys[i+1].dimension, isDim=True),\n                                                sys[i+1]._dimsBefore, sys[i+1]._dimsAfter)","            for other in sys[1:]:\n                flipOpN = operators.compositeOp(rotOp(other.dimension, isDim=True),\n                                                other._dimsBefore, other._dimsAfter)")]),
 ('helper','same',[(G,"flipUn = evolution.Unitary(self.phase*self.angle*flipOp)\n","tot = self.phase*self.angle\n            flipUn = evolution.Unitary(flipOp, tot)\n")]),
 ('had2','same',[(B,"    data = [1 / np.sqrt(2), 1 / np.sqrt(2), 1 / np.sqrt(2), -1 / np.sqrt(2)]","    c = 1 / np.sqrt(2)\n    data = [c, c, c, -c]")]),
 ('had3','same',[(B,"    n = sp.csc_matrix((data, (rows, columns)), shape=(2, 2))\n    return n if sparse else n.toarray()","    n = sp.csc_matrix((data, (rows, columns)), shape=(2, 2))\n    if not sparse:\n        n = n.toarray()\n    return n")]),
 ('mergebranch','same',[(E,"    if sparse is True:\n        liouvillianEXP = slinA.expm(-1j * Hamiltonian * timeStep)\n    else:\n        liouvillianEXP = linA.expm(-1j * Hamiltonian * timeStep)\n    return liouvillianEXP","    generator = -1j * timeStep * Hamiltonian\n    return slinA.expm(generator) if sparse else linA.expm(generator)")]),
 ('disp2','same',[(O,"oper = (alpha * create(dim)) - (np.conj(alpha) * destroy(dim))","raising = alpha * create(dim)\n    oper = raising - raising.conj().T")]),
]

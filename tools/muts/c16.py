W='classes/QSweep.py'; R='classes/QRes.py'; M_='classes/modularSweep.py'
M=[
 ('append','bad',[(W,'self._Sweep__inds.insert(0, len(sweep.sweepList))','self._Sweep__inds.append(len(sweep.sweepList))')]),
 ('order','bad',[(W,'indices.insert(0, int(remain))','indices.append(int(remain))')]),
 ('first','bad',[(W,'if ((sweep.combinatorial is True) and (sweepInd > 0)):','if sweep.combinatorial is True:')]),
 ('after','bad',[(W,"            if ((sweep.combinatorial is True) and (sweepInd > 0)):\n                indx += 1\n            sweep.runSweep(indList[indx])","            sweep.runSweep(indList[indx])\n            if ((sweep.combinatorial is True) and (sweepInd > 0)):\n                indx += 1")]),
 ('div','bad',[(W,'ind = (ind - remain) / arg','ind = (ind - remain) / args[0]')]),
 ('noreset','bad',[(W,'        self._Sweep__inds = []\n        self._Sweep__indMultip = 1\n','        self._Sweep__indMultip = 1\n')]),
 ('sum','bad',[(W,'reduce(lambda x, y: x * y, self._Sweep__inds)','reduce(lambda x, y: x + y, self._Sweep__inds)')]),
 ('index','bad',[(W,'return self._sweepIndex + 1','return self._sweepIndex')]),
 ('index2','bad',[(W,'self._sweepIndex = ind-1','self._sweepIndex = ind')]),
 ('rowmajor','bad',[(R,'self._reShape(val, list(reversed(inds)))','self._reShape(val, list(inds))')]),
 ('rowmajor2','bad',[(R,'self._reShape(val1, list(reversed(inds)))','self._reShape(val1, list(inds))')]),
 ('skipempty','bad',[(W,'                if len(sweep.subSys) == 0:\n','                if len(sweep.subSys) <= 1:\n')]),
 ('combidx','bad',[(W,'if ((sweep.combinatorial is True) or (indx == 0)):','if sweep.combinatorial is True:')]),
 ('total','bad',[(R,'                nList, totalCount = qResults._reShape(lis, inds, counter, totalCount)','                nList, _ = qResults._reShape(lis, inds, counter, totalCount)')]),
 ('divmod','same',[(W,'            remain = ind % arg\n            ind = (ind - remain) / arg\n            indices.insert(0, int(remain))','            ind, remain = divmod(ind, arg)\n            indices.insert(0, int(remain))')]),
 ('floor','same',[(W,'ind = (ind - remain) / arg','ind = ind // arg')]),
 ('revlist','same',[(W,'indices.insert(0, int(remain))','indices.append(int(remain))'),(W,'        return indices','        return indices[::-1]')]),
 ('prodloop','same',[(W,'            self._Sweep__indMultip = reduce(lambda x, y: x*y, self._Sweep__inds)','            total = 1\n            for length in self._Sweep__inds:\n                total = total * length\n            self._Sweep__indMultip = total')]),
 ('local','same',[(W,'            sweep.runSweep(indList[indx])','            position = indList[indx]\n            sweep.runSweep(position)')]),
 ('combfirst','same',[(W,'if ((sweep.combinatorial is True) or (indx == 0)):','if indx == 0 or sweep.combinatorial is True:')]),
 ('direct','same',[(W,'self._sweepIndex = ind-1','self._sweepIndex = ind'),(W,'return self._sweepIndex + 1','return self._sweepIndex'),]),
 ('shapehelper','same',[(R,'self._reShape(val, list(reversed(inds)))','self._reShape(val, inds[::-1])')]),
 ('lam','same',[(W,'        for sweepInd, sweep in enumerate(self.sweeps.values()):','        for sweepInd, sweep in enumerate(list(self.sweeps.values())):')]),
]

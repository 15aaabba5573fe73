From 787ffe0fd91d5c1eda6c3ee295c58bf31aa54cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 01/67] fix: adjoint step used the conjugate of a stale matrix
 after a parameter change

---
 src/quanguru/classes/baseClasses.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/baseClasses.py b/src/quanguru/classes/baseClasses.py
index a0e8a68..bb8b5d4 100644
--- a/src/quanguru/classes/baseClasses.py
+++ b/src/quanguru/classes/baseClasses.py
@@ -153,9 +153,8 @@ class paramBoundBase(qBase):
 
     @property
     def _hc(self):
-        if ((self._paramBoundBase__matrixHc is None)
-            or (self._paramBoundBase__matrixHc.shape != self._paramBoundBase__matrix.shape)): # pylint: disable=assigning-non-slot
-            self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
+        # always derived from the current matrix, a cached one goes stale when the matrix is re-created with same shape
+        self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrixHc # pylint: disable=assigning-non-slot
 
     @property
-- 
2.43.0


From 066d6a307bdecac6cbbabb082faf790322c6ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 02/67] fix: changing the step ratio did not invalidate the
 step unitary

---
 src/quanguru/classes/QPro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f3379ab..f7fb36a 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -33,7 +33,7 @@ from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond
 
 from .base import qBase, addDecorator
 from .baseClasses import updateBase
-from .QSimBase import _parameter
+from .QSimBase import _parameter, setAttr
 from .QSimComp import QSimComp
 from .QSweep import Sweep
 
@@ -158,7 +158,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @ratio.setter
     def ratio(self, val):
-        self._genericProtocol__ratio = val # pylint: disable=assigning-non-slot
+        setAttr(self, '_genericProtocol__ratio', val)
 
     @property
     def system(self):
-- 
2.43.0


From a197d7e385046475767ef2e9b8ab2fbff1fa7cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 03/67] fix: changing the gate implementation did not
 invalidate the gate unitary

---
 src/quanguru/classes/QPro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f7fb36a..09419fd 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -451,7 +451,7 @@ class Gate(genericProtocol):
 
     @implementation.setter
     def implementation(self, typeStr):
-        self._Gate__implementation = typeStr # pylint: disable=assigning-non-slot
+        setAttr(self, '_Gate__implementation', typeStr)
 
 class Update(updateBase):
     label = 'Update'
-- 
2.43.0


From 2386bb66fa26d008ca453d9f488a256c4b8dbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 04/67] fix: adding an update did not invalidate the protocol
 unitary

---
 src/quanguru/classes/QPro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 09419fd..135bd4d 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -147,6 +147,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def addUpdate(self, *args):
         for update in args:
             self._genericProtocol__updates.append(update) # pylint: disable=no-member
+            self._paramUpdated = True
 
     @property
     def updates(self):
-- 
2.43.0


From 0c198726cd50ff5ff114e147079d8cd8e84f4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 05/67] fix: changing the rotation phase did not invalidate the
 gate unitary

---
 src/quanguru/classes/QGates.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 921372c..2a1a6a2 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -35,13 +35,13 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     _externalInstances: int = 0
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
-    __slots__ = ['__angle', '__rotationAxis', 'phase', '_rotationOp']
+    __slots__ = ['__angle', '__rotationAxis', '__phase', '_rotationOp']
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self.__angle = None
         self.__rotationAxis = None
         self._rotationOp = None
-        self.phase = 1
+        self.__phase = 1
         #self._createUnitary = self._rotMat
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
@@ -53,6 +53,14 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     def angle(self, val):
         setAttr(self, '_SpinRotation__angle', val)
 
+    @property
+    def phase(self):
+        return self._SpinRotation__phase
+
+    @phase.setter
+    def phase(self, val):
+        setAttr(self, '_SpinRotation__phase', val)
+
     @property
     def rotationAxis(self):
         return self._SpinRotation__rotationAxis # pylint: disable=no-member
-- 
2.43.0


From 23023f9d25d5a9452ec59acbcccf97ec17337704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 06/67] fix: a rejected rotation axis was stored anyway

---
 src/quanguru/classes/QGates.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 2a1a6a2..f190337 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -67,15 +67,16 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
 
     @rotationAxis.setter
     def rotationAxis(self, axStr):
-        setAttr(self, '_SpinRotation__rotationAxis', axStr)
         if axStr.lower() == 'x':
-            self._rotationOp = operators.Jx
+            rotationOp = operators.Jx
         elif axStr.lower() == 'y':
-            self._rotationOp = operators.Jy
+            rotationOp = operators.Jy
         elif axStr.lower() == 'z':
-            self._rotationOp = operators.Jz
+            rotationOp = operators.Jz
         else:
             raise ValueError('unknown axis')
+        self._rotationOp = rotationOp
+        setAttr(self, '_SpinRotation__rotationAxis', axStr)
 
     def _rotMat(self, collapseOps = None, decayRates = None, openSys=False): #pylint:disable=unused-argument
         if ((self._paramBoundBase__matrix is None) or (self._paramBoundBase__paramUpdated is True)): # pylint: disable=no-member
-- 
2.43.0


From abd310e711a5bfbf0677ddae4096a12a3c1ad719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 07/67] fix: unknown gate implementation read an unassigned
 local

---
 src/quanguru/classes/QGates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index f190337..41d8cd0 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -116,6 +116,8 @@ class xGate(SpinRotation): # pylint: disable=too-many-ancestors
                 rotOp = spinRotations.yRotation
             elif self.rotationAxis.lower() == 'z':
                 rotOp = spinRotations.zRotation
+            else:
+                raise ValueError('unknown axis')
             flipOp = operators.compositeOp(rotOp(self.angle), sys[0]._dimsBefore, sys[0]._dimsAfter) # pylint: disable=no-member
             for i in range(len(sys)-1):
                 flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter) @ flipOp
@@ -128,6 +130,8 @@ class xGate(SpinRotation): # pylint: disable=too-many-ancestors
             unitary = self._rotMat(openSys = isinstance(collapseOps, list) or self._isOpen)
         elif self.implementation.lower() in ('instant', 'flip'): # pylint: disable=no-member
             unitary = self.instantFlip(openSys = isinstance(collapseOps, list) or self._isOpen)
+        else:
+            raise ValueError('unknown implementation')
         return unitary
 
 SpinRotation._createUnitary = SpinRotation._rotMat # pylint: disable=protected-access
-- 
2.43.0


From 29b4cc5b5be3ce52fce13fab48da5c1e8a9e4710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 08/67] fix: resetTerms left the Hamiltonian of the discarded
 terms in place

---
 src/quanguru/classes/QSystem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 41eebb0..0c2b238 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -653,6 +653,8 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         Method to delete all the existing terms by assigning a new empty dictionary.
         """
         self._QuantumSystem__terms = aliasDict() # pylint:disable=assigning-non-slot
+        self._QuantumSystem__firstTerm = None # pylint:disable=assigning-non-slot
+        self._paramUpdated = True
 
     @terms.setter
     def terms(self, trm):
-- 
2.43.0


From fcecf8e10823659eda7aa757d6ee5bb085ba14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 09/67] fix: a removed sub-system lost its dimension

---
 src/quanguru/classes/QSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 0c2b238..82db754 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -492,7 +492,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 oldDim = subSys.dimension
                 subSys.dimension = 1
                 super()._removeSubSysExc(subSys, _exclude=_exclude)
-                setAttr(self, '_QuantumSystem__dimension', oldDim)
+                setAttr(subSys, '_QuantumSystem__dimension', oldDim)
             subSys.superSys = None
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
-- 
2.43.0


From b85c95fbc0ec8da48182e28dd015f3003e0a2efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 10/67] fix: self and deeper cycles were accepted as
 sub-systems

---
 src/quanguru/classes/QSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 82db754..e2afb81 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -389,7 +389,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         updates of the sub-system also sets the _paramUpdated of self to True.
         Note that composite systems can contain other composite systems as sub-systems.
         """
-        if self in subSys.subSys.values():
+        if subSys is self or subSys._hasInSubs(self): # pylint:disable=protected-access
             raise ValueError(f"{self.name} is a subsystem of {subSys.name}. " +
                              f"Cannot add {subSys.name} as subsystem to {self.name}. " +
                              "Circular subsystem addition is not allowed.")
-- 
2.43.0


From bddb5ef2dbd0c0eb84fe7dc1c6431a6183343e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 11/67] fix: copying a system with several terms kept only the
 last one

---
 src/quanguru/classes/QSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index e2afb81..0d6e1bb 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -721,7 +721,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             cqsys.alias = qsys.name + "_" + cqsys.name
             newSys.addSubSys(cqsys)
         subSysList = list(newSys.subSys.values())
-        for ter in self.terms.values():
+        for terInd, ter in enumerate(self.terms.values()):
             if isinstance(ter.qSystem, QuantumSystem):
                 qSystemNames = newSys
             else:
@@ -729,7 +729,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 for qsys in ter.qSystem:
                     qSystemNames.append(qsys.name + "_" + subSysList[qsys.ind].name)
 
-            if newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access
+            if terInd > 0 or newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access
                 newSys.createTerm(qSystem=qSystemNames, #pylint:disable=no-member
                                   operator=ter.operator,
                                   frequency=ter.frequency,
-- 
2.43.0


From 35d697855337ff753be6943047ceb8ab031cf755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 12/67] fix: adding a system of undetermined type to a single
 system read an unassigned local

---
 src/quanguru/classes/QSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 0d6e1bb..2a803f8 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -434,7 +434,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         elif self._QuantumSystem__compSys is other._QuantumSystem__compSys:
             newComp = QuantumSystem(subSys=[self, other.copy() if (other is self) else other])
             # TODO copy the simulation parameters, and what to do with compute and calculate?
-        elif ((not self._isComposite) and (other._isComposite)):
+        else:
             other.addSubSys(self)
             newComp = other
         return newComp
-- 
2.43.0


From b865a36c82dd660a5427334ff897f31cfca50666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 13/67] fix: a rejected dimension still turned an undetermined
 system into a single system

---
 src/quanguru/classes/QSystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 2a803f8..b0531fe 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -246,13 +246,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
 
     @dimension.setter
     def dimension(self, dim):
-        if self._QuantumSystem__compSys is None: # pylint:disable=no-member
-            self._QuantumSystem__compSys = bool(len(self.subSys)) # pylint:disable=assigning-non-slot
-
-        if not self._isComposite: # pylint:disable=no-member
+        isComp = bool(len(self.subSys)) if self._QuantumSystem__compSys is None else self._QuantumSystem__compSys
+        if not isComp:
             checkCorType(dim, (int, integer), "dimension of a QuantumSystem has to be an integer")
             checkVal(dim>0, True, "dimension of a QuantumSystem has to be larger than 0")
             self._hasConsistentDimensionTerm(dim)
+            self._QuantumSystem__compSys = isComp # pylint:disable=assigning-non-slot
             oldVal = getattr(self, '_QuantumSystem__dimension')
             setAttr(self, '_QuantumSystem__dimension', dim)
             if self._paramUpdated:
@@ -260,6 +259,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 if self.superSys is not None:# to change dimsBefore/After of other systems if self in subSys of superSys
                     self.superSys._updateDimension(self, dim, oldVal) # pylint:disable=protected-access
         else:
+            self._QuantumSystem__compSys = isComp # pylint:disable=assigning-non-slot
             warnings.warn(self.name + ' is a composite system, cannot set dimension')
 
     @property
-- 
2.43.0


From b43d8668e4fed98aef086b6471a659c4638a70af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 14/67] fix: asking for the unitary marked the Hamiltonian up
 to date without recomputing it

---
 src/quanguru/classes/QSystem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index b0531fe..e6802fd 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -530,9 +530,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         r"""
         Returns the unitary evolution operator for ``self``.
         """
-        unitary = self._QuantumSystem__unitary.unitary()
-        self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
-        return unitary
+        return self._QuantumSystem__unitary.unitary()
 
     def addProtocol(self, protocol=None, system=None, protocolRemove=None):
         r"""
-- 
2.43.0


From 0cb3abd33c68dd433611a7f271d4ed36e86d1ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 15/67] fix: a rejected operator or system of a term left the
 term partially modified

---
 src/quanguru/classes/QTerms.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index 6fcc983..d81ae9a 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -102,15 +102,16 @@ class QTerm(paramBoundBase):
         if isinstance(qSys, (list, tuple)):
             checkNotVal(self.superSys,None,'Multi-system terms (i.e. couplings) require the composite system that '+
             'contains the given systems to be its superSys')
+            qSys = [self.getByNameOrAlias(qsys) for qsys in qSys]
+        else:
+            qSys = self.getByNameOrAlias(qSys)
         self._QTerm__order = 1 # pylint: disable=assigning-non-slot
         self._QTerm__operator = None # pylint: disable=assigning-non-slot
         self.resetSubSys()
-        if isinstance(qSys, (list, tuple)):
-            qSys = [self.getByNameOrAlias(qsys) for qsys in qSys]
+        if isinstance(qSys, list):
             for qsys in qSys:
                 self.addSubSys(QTerm(qSystem=qsys, _internal=True))
         else:
-            qSys = self.getByNameOrAlias(qSys)
             self._paramBoundBase__paramBound[qSys.name] = qSys # pylint: disable=protected-access,no-member
         setAttr(self, '_QTerm__qSys', qSys)
 
@@ -181,10 +182,11 @@ class QTerm(paramBoundBase):
             checkCorType(vals, (list, tuple), f'{attrPrintName} of a term with multiple system (i.e. a coupling term)')
             checkVal(len(vals), len(self.qSystem), f'Number of {attrPrintName} ({len(vals)}) should be the same as'+
                                                     f' number of qSystem ({len(self.subSys)})')
-            for ind, ter in enumerate(self.subSys.values()):
-                setAttr(ter, attrName, vals[ind])
         if attrName == '_QTerm__operator':
             self._isCorrectPauliDim(self.qSystem, vals) #pylint:disable=no-member
+        if isinstance(vals, (list, tuple)):
+            for ind, ter in enumerate(self.subSys.values()):
+                setAttr(ter, attrName, vals[ind])
         setAttr(self, attrName, vals)
         if self._paramUpdated:
             self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
@@ -198,10 +200,12 @@ class QTerm(paramBoundBase):
 
     @operator.setter
     def operator(self, op):
-        self._checkAndUpdateParamsWhenMultiple(op, '_QTerm__operator', 'operator')
-        if ((not isinstance(self.order, (list, tuple))) and isinstance(op, (list, tuple))):
+        singleOrder = (not isinstance(self.order, (list, tuple))) and isinstance(op, (list, tuple))
+        if singleOrder:
             checkVal(self.order, 1, f'order value ({self.order}) for a multi term ({len(op)}) system is ambiguous, '+
                                      'set a list/tuple of order values for each term in {op}')
+        self._checkAndUpdateParamsWhenMultiple(op, '_QTerm__operator', 'operator')
+        if singleOrder:
             self.order = [1 for _ in op]
 
     @property
-- 
2.43.0


From 605c628a01499a77405fbc95f9d5c73ba87e0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 16/67] fix: an unknown core count read an unassigned local

---
 src/quanguru/classes/QSim.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 3dd482f..7926cf0 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -397,8 +397,7 @@ class _poolMemory: # pylint: disable=too-few-public-methods
             elif coreCount.lower() == 'all':
                 _pool = multiprocessing.Pool(processes=multiprocessing.cpu_count()-1) #pylint:disable=consider-using-with
             else:
-                # FIXME should raise error
-                print('error')
+                raise ValueError(f"coreCount ({coreCount}) should be an integer or 'all'")
         elif p is False:
             _pool = None
         elif p is not None:
-- 
2.43.0


From c4f7a549d8c660af1ccebda2cee5246fb54f64d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 17/67] fix: worker processes were left running when a parallel
 simulation raised

---
 src/quanguru/classes/QSim.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 7926cf0..934ecc7 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -408,9 +408,10 @@ class _poolMemory: # pylint: disable=too-few-public-methods
                 _pool = multiprocessing.Pool(processes=_poolMemory.coreCount) #pylint:disable=consider-using-with
             else:
                 _pool = None
-        runSimulation(qSim, _pool)
-
-        if _pool is not None:
-            _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
-            _pool.close()
-            _pool.join()
+        try:
+            runSimulation(qSim, _pool)
+        finally:
+            if _pool is not None:
+                _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
+                _pool.close()
+                _pool.join()
-- 
2.43.0


From 5e7971dca962176b365095afe300a67fbb578787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 18/67] fix: two updates of the same parameter did not restore
 its original value

---
 src/quanguru/classes/QPro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 135bd4d..54643de 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -219,7 +219,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         for update in self._genericProtocol__updates:
             update.setup()
         self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
-        for update in self._genericProtocol__updates:
+        for update in reversed(self._genericProtocol__updates):
             update.setback()
         self._paramUpdatedToFalse()
         return self._paramBoundBase__matrix # pylint: disable=no-member
-- 
2.43.0


From 56b1a15770ec93a6666b7ad11d8120eb23d57c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 19/67] fix: a fixed protocol without a unitary returned None
 instead of creating it

---
 src/quanguru/classes/QPro.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 54643de..e3e6ca1 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -199,10 +199,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-        if self._paramUpdated:
-            if not self.fixed:
-                self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
+        if self._paramBoundBase__matrix is None or (self._paramUpdated and not self.fixed): # pylint: disable=no-member
             self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -228,14 +225,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
 
     def _defGetUnitary(self, collapseOps = None, decayRates = None):
-        runCreate = False
-        if self._paramUpdated:
-            if not self.fixed:
-                runCreate = True
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
-            runCreate = True
-
-        if runCreate:
+        if self._paramBoundBase__matrix is None or (self._paramUpdated and not self.fixed): # pylint: disable=no-member
             lc = 1
             td = False
             if len(self.timeDependency.sweeps) > 0:
-- 
2.43.0


From 3485f435787a8feb780642aef43b01521b7c70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 20/67] fix: an update of several systems restored the value of
 the first one to all of them

---
 src/quanguru/classes/QPro.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index e3e6ca1..8d03bd3 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -453,7 +453,7 @@ class Update(updateBase):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['value', '__memoryValue', 'setup', 'setback']
+    __slots__ = ['value', '__memoryValue', '__memoryOthers', 'setup', 'setback']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
@@ -461,6 +461,7 @@ class Update(updateBase):
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
+        self.__memoryOthers = []
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
     @property
@@ -488,7 +489,9 @@ class Update(updateBase):
         self._updateBase__function = func # pylint: disable=assigning-non-slot
 
     def _setup(self):
-        self.memoryValue = getattr(list(self.subSys.values())[0], self.key)
+        systems = list(self.subSys.values())
+        self.memoryValue = getattr(systems[0], self.key)
+        self._Update__memoryOthers = [(sys, getattr(sys, self.key)) for sys in systems[1:]] # pylint: disable=assigning-non-slot
         if self._updateBase__function is None: # pylint: disable=no-member
             super()._runUpdate(self.value)
         else:
@@ -497,3 +500,5 @@ class Update(updateBase):
     def _setback(self):
         if self.value != self.memoryValue:
             super()._runUpdate(self.memoryValue)
+        for sys, memory in self._Update__memoryOthers: # pylint: disable=no-member
+            setattr(sys, self.key, memory)
-- 
2.43.0


From 3ab6865da1c13c223d7e59502de09ee5f99441da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 21/67] fix: marking the first sweep as combinatorial shifted
 every sweep index

---
 src/quanguru/classes/QSweep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 8c1fcd6..2006735 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -331,8 +331,8 @@ class Sweep(qBase):
         ``subSys`` one after the other. Also, for nested Sweeps, the indList should be a properly nested list.
         """
         indx = 0
-        for sweep in self.sweeps.values():
-            if sweep.combinatorial is True:
+        for sweepInd, sweep in enumerate(self.sweeps.values()):
+            if ((sweep.combinatorial is True) and (sweepInd > 0)):
                 indx += 1
             sweep.runSweep(indList[indx])
 
-- 
2.43.0


From 1dcf75b0f88e0446616fc8ae8a2abd35887a09cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 22/67] fix: a re-run after removing all sweeps used the
 lengths of the removed sweeps

---
 src/quanguru/classes/QSweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 2006735..93807df 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -315,8 +315,9 @@ class Sweep(qBase):
         attributes/properties. The reason for this a bit argued in :meth:`indMultip`, but it is basically to ensure that
         any changes to ``sweepList/s`` or ``combinatorial/s`` are accurately used/reflected (especially on re-runs).
         """
+        self._Sweep__inds = [] # pylint: disable=assigning-non-slot
+        self._Sweep__indMultip = 1 # pylint: disable=assigning-non-slot
         if len(self.subSys) > 0:
-            self._Sweep__inds = [] # pylint: disable=assigning-non-slot
             for indx, sweep in enumerate(self.subSys.values()):
                 if ((sweep.combinatorial is True) or (indx == 0)):
                     self._Sweep__inds.insert(0, len(sweep.sweepList))
-- 
2.43.0


From c0569ea1cf8ccfd2e8876d519bb315a0b85c2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 23/67] fix: completeBasisMat overwrote the kets in the list it
 is given

---
 src/quanguru/QuantumToolbox/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/states.py b/src/quanguru/QuantumToolbox/states.py
index 45e044a..88038ba 100644
--- a/src/quanguru/QuantumToolbox/states.py
+++ b/src/quanguru/QuantumToolbox/states.py
@@ -419,7 +419,7 @@ def completeBasisMat(dimension: Optional[int] = None, compKetBase: Optional[matr
             raise ValueError('err')
         compBase = completeBasis(dimension, sparse)
     else:
-        compBase = compKetBase
+        compBase = list(compKetBase)
 
     for i, state in enumerate(compBase):
         compBase[i] = densityMatrix(state)
-- 
2.43.0


From f1b1cbdb2b8610db8f2017633ec194d3ff4e58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 24/67] fix: a pair of collapse operators was not accepted by
 Liouvillian

---
 src/quanguru/QuantumToolbox/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index aa3ac4b..65c4926 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -147,12 +147,12 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
 
     if isinstance(collapseOperators, list):
         for idx, collapseOperator in enumerate(collapseOperators):
-            if collapseOperator.shape[0] == dimensionOfHilbertSpace:
+            if isinstance(collapseOperator, tuple):
+                collapsePart = dissipator(collapseOperator[0], collapseOperator[1], _double=_double)
+            elif collapseOperator.shape[0] == dimensionOfHilbertSpace:
                 collapsePart = dissipator(collapseOperator, identity=identity, _double=_double)
             elif collapseOperator.shape[0] == (dimensionOfHilbertSpace**2):
                 collapsePart = collapseOperator
-            elif isinstance(collapseOperator, tuple):
-                collapsePart = dissipator(collapseOperator[0], collapseOperator[1], _double=_double)
             else:
                 raise ValueError("Dimension mismatch")
 
-- 
2.43.0


From fdc63f4fbe0de037572c0e83f44a20b8aeb3ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 25/67] fix: Liouvillian without any operator read an
 unassigned local

---
 src/quanguru/QuantumToolbox/evolution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index 65c4926..eeeae9c 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -133,9 +133,10 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
     #  functions are generalized.
     if Hamiltonian is not None:
         dimensionOfHilbertSpace = Hamiltonian.shape[0]
+    elif collapseOperators is not None:
+        dimensionOfHilbertSpace = collapseOperators[0].shape[0]
     else:
-        if collapseOperators is not None:
-            dimensionOfHilbertSpace = collapseOperators[0].shape[0]
+        raise ValueError("Either a Hamiltonian or collapse operators are required")
 
     identity = sp.identity(dimensionOfHilbertSpace, format="csc")
     liouvillian = zerosMat(dimensionOfHilbertSpace**2)
@@ -208,9 +209,10 @@ def LiouvillianExp(Hamiltonian: Optional[Matrix] = None, timeStep: float = 1.0,#
 
     if Hamiltonian is not None:
         sparse = sp.issparse(Hamiltonian)
+    elif collapseOperators is not None:
+        sparse = sp.issparse(collapseOperators[0])
     else:
-        if collapseOperators is not None:
-            sparse = sp.issparse(collapseOperators[0])
+        raise ValueError("Either a Hamiltonian or collapse operators are required")
 
     if isinstance(collapseOperators, list):
         liouvillian = Liouvillian(Hamiltonian, collapseOperators, decayRates, _double=_double)
-- 
2.43.0


From ccb28e560c4b064b99ead0226da1a03e345413e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 26/67] fix: HusimiQ failed for every density matrix

---
 src/quanguru/QuantumToolbox/quasiProbabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/quasiProbabilities.py b/src/quanguru/QuantumToolbox/quasiProbabilities.py
index 93341ad..3661bc2 100644
--- a/src/quanguru/QuantumToolbox/quasiProbabilities.py
+++ b/src/quanguru/QuantumToolbox/quasiProbabilities.py
@@ -142,7 +142,7 @@ def HusimiQ(state: Matrix, vec: ndOrList, g: float = np.sqrt(2)) -> ndarray:
     if state.shape[0] != state.shape[1]:
         qmat = _qfuncPure(state, amat)
     else:
-        d, v = la.eig(state.full())
+        d, v = la.eig(state)
         # d[i]   = eigenvalue i
         # v[:,i] = eigenvector i
 
-- 
2.43.0


From bf33f15722ff011f1fde935848b5a86b219cb7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 27/67] fix: HeatCurrent failed for every input

---
 src/quanguru/QuantumToolbox/thermodynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/thermodynamics.py b/src/quanguru/QuantumToolbox/thermodynamics.py
index 6662a13..03b3024 100644
--- a/src/quanguru/QuantumToolbox/thermodynamics.py
+++ b/src/quanguru/QuantumToolbox/thermodynamics.py
@@ -28,6 +28,7 @@ r"""
 """
 
 from numpy import exp, real # type: ignore
+from .linearAlgebra import trace
 from .states import mat2Vec, vec2Mat
 from .customTypes import Matrix
 
@@ -129,6 +130,6 @@ def HeatCurrent(Lindbladian: Matrix, Hamiltonian: Matrix, denMat: Matrix) -> flo
     # TODO
     """
 
-    full = mat2Vec(Lindbladian * vec2Mat(denMat))
-    heatCurrent = real((full * Hamiltonian).tr())
+    derivative = vec2Mat(Lindbladian @ mat2Vec(denMat))
+    heatCurrent = real(trace(derivative @ Hamiltonian))
     return heatCurrent
-- 
2.43.0


From eb11ec30f3d682577ae68d187d0d3aeca0f9e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 28/67] fix: readCSV failed for complex data

---
 src/quanguru/extensions/saveReadCSV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index c5f2a64..4f1a660 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -94,7 +94,7 @@ def readCSV(path, datatype=float, realVal=True):
             if datatype != np.complex128:
                 data.append(np.array(list(row), dtype=datatype))
             else:
-                li = np.genfromtxt(list(row), delimiter=',', dtype=np.complex)
+                li = np.genfromtxt(list(row), delimiter=',', dtype=np.complex128)
                 data.append(np.real(li) if realVal else li)
     return data if len(data) > 1 else data[0]
 
-- 
2.43.0


From bf46ef6b66cfbc6c4f58c33d3de95ab6397cb7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 29/67] fix: saving a flat list of results failed

---
 src/quanguru/extensions/saveReadCSV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index 4f1a660..0f7b6fa 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -106,7 +106,7 @@ def _recursiveSaveList(data, path=None, fileName=None):
         elif isinstance(data[0][0], (float, int, np.complex128)):
             saveCSV(data, path=path, fileName=fileName)
     elif isinstance(data[0], (float, int, np.complex128)):
-        saveCSV(data[0], path=path, fileName=fileName)
+        saveCSV(data, path=path, fileName=fileName)
 
 def _saveDictToCSV(data, path=None, fileName=''):
     for key, val in data.items():
-- 
2.43.0


From c7128c5464d59dd0d24c0a577bfe7270717eda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 30/67] fix: couplings between unsupported systems read an
 unassigned local

---
 src/quanguru/classes/extensions/couplings.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/quanguru/classes/extensions/couplings.py b/src/quanguru/classes/extensions/couplings.py
index 9bebe40..c1f3afb 100644
--- a/src/quanguru/classes/extensions/couplings.py
+++ b/src/quanguru/classes/extensions/couplings.py
@@ -52,7 +52,11 @@ def checkCavQubOld(coupler):
 
                     if len(qsystems) == 2:
                         break
+            if len(qsystems) < 2:
+                raise ValueError('The coupling requires a qubit and a cavity')
             return couplerDecorator(obj, couplingStrength, *qsystems)
+        else:
+            raise ValueError('The coupling requires a qubit and a cavity')
         return coupler(obj, couplingStrength, *qsystems)
     return couplerDecorator
 
@@ -76,6 +80,8 @@ def RabiOld(obj, couplingStrength, subSys1=None, subSys2=None):
     if qsystems[1].operator in [sigmaz, Jz]: # pylint: disable=comparison-with-callable
         couplingObj = obj.createSysCoupling(qsystems, [destroy, sigmax], qsystems,
                                             [create, sigmax], superSys=obj, couplingStrength=couplingStrength)
+    else:
+        raise ValueError('The qubit operator should be sigmaz or Jz')
     return couplingObj
 
 
@@ -85,6 +91,8 @@ def DickeOld(obj, couplingStrength, subSys1=None, subSys2=None):
     if qsystems[1].operator in [sigmaz, Jz]: # pylint: disable=comparison-with-callable
         couplingObj = obj.createSysCoupling(qsystems, [destroy, Jx], qsystems,
                                             [create, Jx], superSys=obj, couplingStrength=couplingStrength)
+    else:
+        raise ValueError('The qubit operator should be sigmaz or Jz')
     return couplingObj
 
 compQSystem.JC = JCold
@@ -113,7 +121,11 @@ def checkCavQub(coupler):
 
                     if len(qsystems) == 2:
                         break
+            if len(qsystems) < 2:
+                raise ValueError('The coupling requires a qubit and a cavity')
             return couplerDecorator(obj, couplingStrength, *qsystems)
+        else:
+            raise ValueError('The coupling requires a qubit and a cavity')
         return coupler(obj, couplingStrength, *qsystems)
     return couplerDecorator
 
@@ -138,6 +150,8 @@ def Rabi(obj, couplingStrength, subSys1=None, subSys2=None):
         couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, sigmax])
         couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, sigmax])
         couplingObj = QTerm(subSys=[couplingObj1, couplingObj2], qSystem=obj, superSys=obj, frequency=couplingStrength)
+    else:
+        raise ValueError('The qubit operator should be sigmaz or Jz')
     return couplingObj
 
 
@@ -148,6 +162,8 @@ def Dicke(obj, couplingStrength, subSys1=None, subSys2=None):
         couplingObj1 = obj.createTerm(qSystem=qsystems, operator=[destroy, Jx])
         couplingObj2 = obj.createTerm(qSystem=qsystems, operator=[create, Jx])
         couplingObj = QTerm(subSys=[couplingObj1, couplingObj2], qSystem=obj, superSys=obj, frequency=couplingStrength)
+    else:
+        raise ValueError('The qubit operator should be sigmaz or Jz')
     return couplingObj
 
 QuantumSystem.JC = JC
-- 
2.43.0


From 1aa85999ad83c3360992f82260ed71980bbe7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 31/67] fix: unknown Dyson parameters read an unassigned local

---
 src/quanguru/QuantumToolbox/rmtDistributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/quanguru/QuantumToolbox/rmtDistributions.py b/src/quanguru/QuantumToolbox/rmtDistributions.py
index be93ed8..113e52e 100644
--- a/src/quanguru/QuantumToolbox/rmtDistributions.py
+++ b/src/quanguru/QuantumToolbox/rmtDistributions.py
@@ -68,6 +68,8 @@ def EigenVectorDist(x: float, dim: int, beta: int = 1) -> float:
     elif beta == 4:
         coef = (dim - 1)*(dim - 2)
         dist = x*((1-x)**(dim - 1))
+    else:
+        raise ValueError('unknown Dyson parameter')
     val = coef*dist
     if val > 10**30:
         val = 10**30
@@ -110,6 +112,8 @@ def WignerDyson(x: float, beta: int = 1) -> float:
         val = ((x**beta)*((2**18)/((3**6)*(np.pi**3))))*np.exp(-64*(x**2)/(9*np.pi))
     elif beta == 0:
         val = np.exp(-x)
+    else:
+        raise ValueError('unknown Dyson parameter')
     return val
 
 WignerSurmise = WignerDyson
-- 
2.43.0


From 3f22a0c8ffb7f38866ae25af035c3773c93dba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 32/67] fix: delMatrices without arguments cleared the matrices
 only on its first call

---
 src/quanguru/classes/QSimBase.py    | 6 ++++--
 src/quanguru/classes/QSimComp.py    | 3 ++-
 src/quanguru/classes/QSystem.py     | 3 ++-
 src/quanguru/classes/baseClasses.py | 7 ++++---
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 696a0ad..fc39165 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -276,11 +276,12 @@ class stateBase(computeBase):
     def delStates(self, boolean):
         self._stateBase__delStates.value = boolean
 
-    def delMatrices(self, _exclude=[]): # pylint: disable=dangerous-default-value
+    def delMatrices(self, _exclude=None):
         r"""
         This method extends :meth:`delMatrices <paramBoundBase.delMatrices>` to also set
         the ``_stateBase__initialState.value`` to ``None`` and del the old value.
         """
+        _exclude = [] if _exclude is None else _exclude
         if self not in _exclude:
             _exclude = super().delMatrices(_exclude)
             oldMat = self._stateBase__initialState.value  # noqa: 841
@@ -497,7 +498,8 @@ class timeBase(stateBase):
                 except AttributeError:
                     print('not bounding', key)
 
-    def delMatrices(self, _exclude=[]): # pylint: disable=dangerous-default-value
+    def delMatrices(self, _exclude=None):
+        _exclude = [] if _exclude is None else _exclude
         if self not in _exclude:
             _exclude = super().delMatrices(_exclude=_exclude)
             if isinstance(self._timeBase__bound, timeBase):
diff --git a/src/quanguru/classes/QSimComp.py b/src/quanguru/classes/QSimComp.py
index fe4d555..6c99763 100644
--- a/src/quanguru/classes/QSimComp.py
+++ b/src/quanguru/classes/QSimComp.py
@@ -162,11 +162,12 @@ class QSimComp(computeBase):
         """
         return self.simulation.initialState
 
-    def delMatrices(self, _exclude=[]): # pylint: disable=dangerous-default-value
+    def delMatrices(self, _exclude=None):
         r"""
         This method extends :meth:`delMatrices <paramBoundBase.delMatrices>` of :class:`computeBase` to also call
         :meth:`delMatrices <paramBoundBase.delMatrices>` on ``self.simulation``.
         """
+        _exclude = [] if _exclude is None else _exclude
         if self not in _exclude:
             _exclude = super().delMatrices(_exclude)
             _exclude = self.simulation.delMatrices(_exclude)
diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index e6802fd..2dd462f 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -408,11 +408,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         self.delMatrices(_exclude=[])
         return subSys
 
-    def delMatrices(self, _exclude=[]): # pylint: disable=dangerous-default-value
+    def delMatrices(self, _exclude=None):
         r"""
         This method extends :meth:`delMatrices <QSimComp.delMatrices>` of :class:`QSimComp` to also call
         :meth:`delMatrices <paramBoundBase.delMatrices>` on terms.
         """
+        _exclude = [] if _exclude is None else _exclude
         super().delMatrices(_exclude=_exclude)
         for ter in self.terms.values():
             _exclude = ter.delMatrices(_exclude=_exclude)
diff --git a/src/quanguru/classes/baseClasses.py b/src/quanguru/classes/baseClasses.py
index bb8b5d4..3c7c19a 100644
--- a/src/quanguru/classes/baseClasses.py
+++ b/src/quanguru/classes/baseClasses.py
@@ -22,7 +22,7 @@ r"""
     =======================    ==================    ================   ===============
 
 """
-from typing import Any, Callable, Dict, List, Union
+from typing import Any, Callable, Dict, List, Optional, Union
 
 from .exceptions import attrNotValWarn, raiseAttrType, checkCorType, checkNotVal
 from .base import named, qBase, addDecorator, _recurseIfList, aliasDict
@@ -200,7 +200,7 @@ class paramBoundBase(qBase):
         for sys in self._paramBoundBase__paramBound.values():
             sys._paramUpdated = boolean
 
-    def delMatrices(self, _exclude: List = []) -> List: # pylint: disable=dangerous-default-value
+    def delMatrices(self, _exclude: Optional[List] = None) -> List:
         r"""
         This method deletes (sets to ``None``) the ``__matrix`` value for self and calls the ``delMatrices`` for the
         objects in ``__paramBound`` and ``subSys`` dictionaries. Also, calls ``del`` on the old value of ``__matrix``.
@@ -210,13 +210,14 @@ class paramBoundBase(qBase):
 
         _exclude : list, optional
             This is used internally to avoid infinite loops in the cases when an object has another in its
-            ``__paramBound``, while it is in ``subSys`` of the other. By default []
+            ``__paramBound``, while it is in ``subSys`` of the other. By default a new empty list
 
 
         :returns: the _exclude list, which should contain references to all the objects whose ``__matrix`` attribute is
             set to ``None``
 
         """
+        _exclude = [] if _exclude is None else _exclude
 
         if self not in _exclude:
             oldMat = self._paramBoundBase__matrix # noqa: F841
-- 
2.43.0


From 093aa26bb58b49491caaeadd88ee4feea4f309bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 33/67] fix: replacing the sub-systems of a composite kept the
 old Hamiltonian and dimensions

---
 src/quanguru/classes/QSystem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 2dd462f..a64d7ba 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -408,6 +408,13 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         self.delMatrices(_exclude=[])
         return subSys
 
+    def resetSubSys(self):
+        r"""
+        Removes all the sub-systems one by one, so that the dimension information and the matrices are also updated.
+        """
+        for subSys in list(self.subSys.values()):
+            self._removeSubSysExc(subSys, _exclude=[])
+
     def delMatrices(self, _exclude=None):
         r"""
         This method extends :meth:`delMatrices <QSimComp.delMatrices>` of :class:`QSimComp` to also call
-- 
2.43.0


From 2b04a6fdaa2e7e27ec687bcac6fb653c7550f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 34/67] fix: removing a composite sub-system corrupted the
 dimension information inside it

---
 src/quanguru/classes/QSystem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index a64d7ba..6564940 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -494,6 +494,10 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 for qsys in qsysList:
                     subSys._removeSubSysExc(qsys, _exclude=_exclude)#pylint:disable=protected-access
                 super()._removeSubSysExc(subSys, _exclude=_exclude)
+                # detached before its sub-systems are added back, so that their dimension information is relative to it
+                subSys.superSys = None
+                subSys._dimsAfter = 1
+                subSys._dimsBefore = 1
                 # add the sub-systems of subSys back again
                 subSys.addSubSys(qsysList)
             else:
-- 
2.43.0


From 561b1196afeedbe6591b627d3e2146c191eeae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 35/67] fix: extending a nested composite ignored the
 dimensions of the outer sub-systems

---
 src/quanguru/classes/QSystem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 6564940..9e9717e 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -377,6 +377,11 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         for subS in self.subSys.values():
             subS._dimsAfter *= subSys.dimension
             subSys._dimsBefore *= subS.dimension
+        subSys._dimsBefore *= self._dimsBefore
+        subSys._dimsAfter *= self._dimsAfter
+        if self.superSys is not None:
+            oldDim = self.dimension
+            self.superSys._updateDimension(self, oldDim * subSys.dimension, oldDim) # pylint:disable=protected-access
         return subSys
 
     @addDecorator
-- 
2.43.0


From d5f80b34098c2d8be7f9bdbbd5d3b12282dd6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 36/67] fix: creating a sub-system with a given dimension
 failed

---
 src/quanguru/classes/QSystem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 9e9717e..5e40570 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -404,12 +404,14 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         elif self._QuantumSystem__compSys is False: # pylint:disable=no-member
             raise TypeError("Cannot add a sub-system to a single quantum system " + self.name)
 
+        # before the dimension information is derived from the sub-system
+        subSys._named__setKwargs(**kwargs)
         if subSys not in self.subSys.values():
             self._QuantumSystem__addSub(subSys)
         subSys.superSys = self
         self._paramUpdated = True
         subSys._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
-        super().addSubSys(subSys, **kwargs)
+        super().addSubSys(subSys)
         self.delMatrices(_exclude=[])
         return subSys
 
-- 
2.43.0


From 5ff08e61e28e537ddc69b1c8b29131f670a801bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 37/67] fix: gates in open systems multiplied the state by the
 unitary on both sides instead of its adjoint on one

---
 src/quanguru/classes/QGates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 41d8cd0..275d7f3 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -26,6 +26,7 @@ from .QSimBase import setAttr
 from ..QuantumToolbox import evolution
 from ..QuantumToolbox import operators #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox import spinRotations #pylint: disable=relative-beyond-top-level
+from ..QuantumToolbox.linearAlgebra import hc #pylint: disable=relative-beyond-top-level
 
 class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     label = 'SpinRotation'
@@ -88,7 +89,7 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
                 flipOpN = operators.compositeOp(rotOp(sys[i+1].dimension, isDim=True),
                                                 sys[i+1]._dimsBefore, sys[i+1]._dimsAfter)
                 flipUn = evolution.Unitary(self.phase*self.angle*flipOpN) @ flipUn
-            self._paramBoundBase__matrix = evolution._prepostSO(flipUn) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipUn, hc(flipUn)) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -121,7 +122,7 @@ class xGate(SpinRotation): # pylint: disable=too-many-ancestors
             flipOp = operators.compositeOp(rotOp(self.angle), sys[0]._dimsBefore, sys[0]._dimsAfter) # pylint: disable=no-member
             for i in range(len(sys)-1):
                 flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter) @ flipOp
-            self._paramBoundBase__matrix = evolution._prepostSO(flipOp) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipOp, hc(flipOp)) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
-- 
2.43.0


From 73a06ae552fec34a0b51f1916ff2b26d987fad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 38/67] fix: unsupported operands and types of the old system
 classes read unassigned locals

---
 src/quanguru/classes/QSys.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index 4ba4f93..b1e47c0 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -158,6 +158,8 @@ class genericQSys(QSimComp):
             newComp = other
         elif isinstance(other, (float, int)):
             newComp = self
+        else:
+            raise TypeError(f'{type(other)} cannot be added to {self.name}')
         return newComp
 
     def _hasInSubs(self, other):
@@ -199,6 +201,8 @@ class genericQSys(QSimComp):
             newSys = super().copy()
             for sys in subSysList:
                 newSys.addSubSys(sys)
+        else:
+            raise TypeError(f'{self.name} is neither a single nor a composite system and cannot be copied')
 
         if self.simulation._stateBase__initialStateInput._value is not None:
             newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot
@@ -363,6 +367,8 @@ class QuantumSystemOld(genericQSys):
             newCls = qSystem
         elif sysType == 'system coupling':
             newCls = qCoupling
+        else:
+            raise ValueError(f'{sysType} is not a supported system type')
 
         if newCls != cls:
             instance = newCls(**kwargs)
-- 
2.43.0


From ce8a61550ce6ced9629b2ac60d00c15ba24afb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 39/67] fix: clsInstances read an unassigned local for a
 non-boolean argument

---
 src/quanguru/classes/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 48ef44e..3b80a56 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -468,6 +468,8 @@ class named:
             insCount = cls._internalInstances
         elif _internal is False:
             insCount = cls._externalInstances
+        else:
+            raise ValueError(f'_internal ({_internal}) should be None or a boolean')
         return insCount
 
     @classmethod
-- 
2.43.0


From a55cb43dd75940d0dc6bfd8bbd2e1897a13c6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 40/67] fix: in-place union and the dictionaries of the old
 composite class ignored aliases

---
 src/quanguru/classes/QSys.py | 7 +++----
 src/quanguru/classes/base.py | 7 +++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index b1e47c0..38cb40d 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -43,7 +43,6 @@
 
 """ #pylint: disable=too-many-lines
 
-from collections import OrderedDict
 from numpy import (int64, int32, int16, ndarray)
 from scipy.sparse import issparse
 
@@ -51,7 +50,7 @@ from ..QuantumToolbox import operators as qOps #pylint: disable=relative-beyond-
 from ..QuantumToolbox import linearAlgebra as linAlg #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox import states as qSta #pylint: disable=relative-beyond-top-level
 
-from .base import addDecorator, _recurseIfList
+from .base import addDecorator, _recurseIfList, aliasDict
 from .baseClasses import paramBoundBase
 from .QSimComp import QSimComp
 from .QSimBase import setAttr
@@ -397,9 +396,9 @@ class compQSystem(genericQSys):
             compQSystem._externalInstances = qSystem._instances + compQSystem._instances
         super().__init__(_internal=kwargs.pop('_internal', False))
         #: an ordered dictionary for the coupling terms
-        self.__qCouplings = OrderedDict()
+        self.__qCouplings = aliasDict()
         #: an ordered dictionary for the quantum systems
-        self.__qSystems = OrderedDict()
+        self.__qSystems = aliasDict()
 
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 3b80a56..207d1fb 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -280,6 +280,13 @@ class aliasDict(dict):
         for k, v in kwargs.items():
             self[k] = v
 
+    def __ior__(self, mapping: Mapping) -> "aliasDict":
+        r"""
+        in-place union compatible with the extended update method.
+        """
+        self.update(mapping)
+        return self
+
     def setdefault(self, __key: Hashable, __default: Optional[Any] = None) -> Any:
         r"""
         Modified setdefault method to be compatible with extended :meth:`~__setitem__` & :meth:`~__getitem__` methods.
-- 
2.43.0


From 8d511e46fbf129f2f5c61657466218ce0aa45d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 41/67] fix: an update function was not undone when the update
 value equals the original value

---
 src/quanguru/classes/QPro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 8d03bd3..7efdd2e 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -498,7 +498,7 @@ class Update(updateBase):
             self._updateBase__function(self) # pylint: disable=no-member
 
     def _setback(self):
-        if self.value != self.memoryValue:
+        if self._updateBase__function is not None or self.value != self.memoryValue: # pylint: disable=no-member
             super()._runUpdate(self.memoryValue)
         for sys, memory in self._Update__memoryOthers: # pylint: disable=no-member
             setattr(sys, self.key, memory)
-- 
2.43.0


From dc97c3816c67bbd3e9678f0769b6486536a63074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 42/67] fix: the Liouvillian of collapse operator pairs without
 a Hamiltonian failed

---
 src/quanguru/QuantumToolbox/evolution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index eeeae9c..ec9848e 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -134,7 +134,10 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
     if Hamiltonian is not None:
         dimensionOfHilbertSpace = Hamiltonian.shape[0]
     elif collapseOperators is not None:
-        dimensionOfHilbertSpace = collapseOperators[0].shape[0]
+        firstOperator = collapseOperators[0]
+        if isinstance(firstOperator, tuple):
+            firstOperator = firstOperator[0]
+        dimensionOfHilbertSpace = firstOperator.shape[0]
     else:
         raise ValueError("Either a Hamiltonian or collapse operators are required")
 
-- 
2.43.0


From 00465c28389a12c8e5168d37ff1e4b640929b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 43/67] fix: removing the sweeps of a system failed on sweeps
 of other systems

---
 src/quanguru/classes/QSweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 93807df..37685a2 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -256,10 +256,11 @@ class Sweep(qBase):
         Else, it calls the :meth:`removeSubSys <quanguru.classes.base.qBase.removeSubSys>` on every ``_sweep`` in its
         ``subSys`` dictionary (since ``systems`` are stored in ``subSys`` dictionary of ``_sweep`` objects).
         """
+        sys = self.getByNameOrAlias(sys)
         if isinstance(sys, _sweep):
             super()._removeSubSysExc(sys, _exclude=[])
         else:
-            sweeps = list(self.subSys.values())
+            sweeps = [sweep for sweep in self.subSys.values() if sys.name in sweep.subSys]
             for sweep in sweeps:
                 sweep._removeSubSysExc(sys, _exclude=[]) #pylint:disable=protected-access
                 if len(sweep.subSys) == 0:
-- 
2.43.0


From 960abd2f825d9d51353864b9f008f8d8cea961b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 44/67] fix: default _exclude lists kept the objects of earlier
 calls

---
 src/quanguru/classes/QSys.py    | 9 ++++++---
 src/quanguru/classes/QSystem.py | 6 ++++--
 src/quanguru/classes/base.py    | 3 ++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index 38cb40d..c9ef772 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -496,11 +496,12 @@ class compQSystem(genericQSys):
         return subSys
 
     @_recurseIfList
-    def _removeSubSysExc(self, subSys, _exclude=[]):#pylint:disable=arguments-differ,dangerous-default-value,too-many-branches
+    def _removeSubSysExc(self, subSys, _exclude=None):#pylint:disable=arguments-differ,too-many-branches
         r"""
         Removes a quantum system from the composite system ``self`` and updates the relevant information in the
         remaining sub-systems (such as dimension before/after).
         """
+        _exclude = [] if _exclude is None else _exclude
         subSys = self.getByNameOrAlias(subSys)
         couplings = list(self.qCouplings.values())
         for coupling in couplings:
@@ -597,11 +598,12 @@ class compQSystem(genericQSys):
         for sys in self.qCouplings.values():
             sys._constructMatrices() # pylint: disable=protected-access
 
-    def updateDimension(self, qSys, newDimVal, oldDimVal=None, _exclude=[]):#pylint:disable=dangerous-default-value,too-many-branches
+    def updateDimension(self, qSys, newDimVal, oldDimVal=None, _exclude=None):#pylint:disable=too-many-branches
         r"""
         This method is called when the dimension of a subSys ``qSys`` is changed, so that the relevant changes are
         reflected to dimension before/after information for the other systems in the composite system.
         """
+        _exclude = [] if _exclude is None else _exclude
         # TODO can be combined with removeSubSys by a decorator or another method to simplfy both
         if oldDimVal is None:
             oldDimVal = qSys._genericQSys__dimension
@@ -1004,10 +1006,11 @@ class qSystem(genericQSys):
         return subSys
 
     @_recurseIfList
-    def _removeSubSysExc(self, subSys, _exclude=[]): # pylint: disable=arguments-differ, dangerous-default-value
+    def _removeSubSysExc(self, subSys, _exclude=None): # pylint: disable=arguments-differ
         r"""
         Method to remove a term from its Hamiltonian.
         """
+        _exclude = [] if _exclude is None else _exclude
         if self not in _exclude:
             _exclude.append(self)
             subSys = self.getByNameOrAlias(subSys)
diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 5e40570..1579d5b 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -463,7 +463,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         return self
 
     @_recurseIfList
-    def _removeSubSysExc(self, subSys: Any, _exclude=[]) -> None: # pylint:disable=dangerous-default-value
+    def _removeSubSysExc(self, subSys: Any, _exclude=None) -> None:
         r"""
             Method to remove a given subSys (which might be a single or composite system) from a composite system, which
             might be self or any other composite system in the nested-system structure.
@@ -488,6 +488,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             These are avoided by storing&setting the dimensions back to their original values for single systems and
             adding the removed sub-systems of removed composite systems back in.
         """
+        _exclude = [] if _exclude is None else _exclude
         checkNotVal(self._isComposite, False,
                     f"{self.name} is not a composite. removeSubSys cannot be called on single systems")
         subSys = self.getByNameOrAlias(subSys)
@@ -628,10 +629,11 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         trm.superSys = supSys
         trm._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access, no-member
 
-    def _removeTermExc(self, termObj, _exclude=[]): #pylint:disable=dangerous-default-value
+    def _removeTermExc(self, termObj, _exclude=None):
         r"""
         The method to find and remove the term from a quantum system.
         """
+        _exclude = [] if _exclude is None else _exclude
         termObj = self.getByNameOrAlias(termObj)
         checkCorType(termObj, QTerm, f"Given object {termObj.name} is not a term")
         if termObj in self.terms.values():
diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 207d1fb..a9b25e0 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -57,7 +57,8 @@ def _recurseIfList(func: Callable) -> Callable:
     infinite recursive calls).
     """
     @wraps(func) # needed for the func.__name__
-    def recurse(obj, inp, _exclude=[], **kwargs): # pylint: disable=dangerous-default-value
+    def recurse(obj, inp, _exclude=None, **kwargs):
+        _exclude = [] if _exclude is None else _exclude
         r = None # removing this fails test_paramBoundBaseCreateBreakBoundWithList, but only when I run all the tests
         # could not figure out why.
         if isinstance(inp, (list, tuple)):
-- 
2.43.0


From 6cca347b69ba260005a998379e753c19d66f22ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 45/67] fix: BellStates rejects an unknown name instead of
 returning a number

---
 src/quanguru/QuantumToolbox/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/states.py b/src/quanguru/QuantumToolbox/states.py
index 88038ba..3a10447 100644
--- a/src/quanguru/QuantumToolbox/states.py
+++ b/src/quanguru/QuantumToolbox/states.py
@@ -624,7 +624,6 @@ def BellStates(bs: str = 'Phi+', sparse: bool = True) -> Matrix:
            [ 0.        ]]
     """
 
-    BellState = 0
     if bs in ['Phi+', '00']:
         BellState = (1/np.sqrt(2))*np.array([[1], [0], [0], [1]])
     elif bs in ['Phi-', '01']:
@@ -633,6 +632,8 @@ def BellStates(bs: str = 'Phi+', sparse: bool = True) -> Matrix:
         BellState = (1/np.sqrt(2))*np.array([[0], [1], [1], [0]])
     elif bs in ['Psi-', '11']:
         BellState = (1/np.sqrt(2))*np.array([[0], [1], [-1], [0]])
+    else:
+        raise ValueError(f"{bs} is not the name of a Bell state")
     return sp.csr_matrix(BellState) if sparse else BellState
 
 def purity(denMat: Matrix) -> float:
-- 
2.43.0


From a27dc2946719abf017958e4bd960cf9f6c06b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 46/67] fix: LiouvillianExp accepts a pair of operators as the
 first collapse operator

---
 src/quanguru/QuantumToolbox/evolution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index ec9848e..5763a40 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -213,7 +213,10 @@ def LiouvillianExp(Hamiltonian: Optional[Matrix] = None, timeStep: float = 1.0,#
     if Hamiltonian is not None:
         sparse = sp.issparse(Hamiltonian)
     elif collapseOperators is not None:
-        sparse = sp.issparse(collapseOperators[0])
+        firstOperator = collapseOperators[0]
+        if isinstance(firstOperator, tuple):
+            firstOperator = firstOperator[0]
+        sparse = sp.issparse(firstOperator)
     else:
         raise ValueError("Either a Hamiltonian or collapse operators are required")
 
-- 
2.43.0


From ef5b5d6e4c224a99a08209e940d2195f661c9dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 47/67] fix: Liouvillian of dense operators is an array, not a
 matrix object

---
 src/quanguru/QuantumToolbox/evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index 5763a40..8109c05 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -36,6 +36,7 @@ r"""
 
 from typing import Callable, List, Optional
 
+import numpy as np # type: ignore
 import scipy.sparse as sp # type: ignore
 import scipy.linalg as linA # type: ignore
 import scipy.sparse.linalg as slinA # type: ignore
@@ -164,7 +165,8 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
                 liouvillian += collapsePart
             elif len(decayRates) != 0:
                 liouvillian += decayRates[idx]*collapsePart
-    return liouvillian
+    # adding a dense array to the sparse zero gives a (deprecated) np.matrix
+    return liouvillian if sp.issparse(liouvillian) else np.asarray(liouvillian)
 
 def LiouvillianExp(Hamiltonian: Optional[Matrix] = None, timeStep: float = 1.0,# pylint: disable=dangerous-default-value,unsubscriptable-object # noqa: E501
                    collapseOperators: Optional[List] = None, decayRates: Optional[List] = None,
-- 
2.43.0


From 9943793c729cc8e30f0338cadcadc5745a0f3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 48/67] fix: a protocol is marked as changed when a step it
 shares with another protocol changes

---
 src/quanguru/classes/QPro.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 7efdd2e..b355783 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -297,11 +297,16 @@ class qProtocol(genericProtocol):
         for step in args:
             if isinstance(step, copyStep):
                 super().addSubSys(step)
+                step.superSys._paramBoundBase__paramBound[self.name] = self
             elif step._genericProtocol__inProtocol:
                 super().addSubSys(copyStep(step))
+                step._paramBoundBase__paramBound[self.name] = self
             else:
                 super().addSubSys(step)
                 step._genericProtocol__inProtocol = True
+                # the same step may also be in other protocols (as a copyStep) or be evaluated on its own, which clears
+                # its own flag, so the protocol needs its own.
+                step._paramBoundBase__paramBound[self.name] = self
                 step._genericProtocol__currentState._bound = self._genericProtocol__currentState #pylint:disable=W0212,E1101
                 step.simulation._bound(self.simulation, re=True) # pylint: disable=protected-access
                 if ((step.superSys is None) and (self.superSys is not None)):
@@ -315,7 +320,8 @@ class qProtocol(genericProtocol):
                 vals.append(st._paramUpdated)
         else:
             for ind2, st in enumerate(subSysList[ind:]):
-                st._paramUpdated = vals[ind2]
+                if not isinstance(st, copyStep):
+                    st._paramBoundBase__paramUpdated = vals[ind2] # only of the step, not of what is bound to it
         return vals
 
     def _defCreateUnitary(self, collapseOps = None, decayRates = None):
-- 
2.43.0


From 9ab6cb07a0576ba90b53d20415677ce071ff6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 49/67] fix: setting a simulation parameter keeps the
 notifications and initial state of the simulation it is bound to

---
 src/quanguru/classes/QSimBase.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index fc39165..22ec8ea 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -49,15 +49,12 @@ def setAttr(obj: paramBoundBase, attrStr: str, val: Any) -> None:
 def setAttrParam(obj: paramBoundBase, attrStr: str, val: Any) -> None:
     r"""
     a customized setattr that changes the value stored as the ``value`` attribute of a _parameter object.
-    The value (and _paramUpdated) is changed, if the new value is different than the old/existing. In any case, it
-    breaks existing timeBase bounds (bound between :class:`~Simulation` instances).
+    The value (and _paramUpdated) is changed, if the new value is different than the old/existing, which breaks the bound
+    of this parameter. The other parameters (and the initial state) of ``obj`` keep following the
+    :class:`~Simulation` instance it is bound to, so the bound between the instances is kept.
     Especially useful for multi parameter sweeps (see :class:`~_sweep`).
     """
     oldVal = getattr(obj, attrStr).value
-    if obj._timeBase__bound is not None:
-        obj._timeBase__bound._paramBoundBase__paramBound.pop(obj.name, None)
-        obj._timeBase__bound = None
-
     if val != oldVal:
         getattr(obj, attrStr).value = val
         setattr(obj, '_paramUpdated', True)
-- 
2.43.0


From de31eec469b4536faeaa3a08bc4c5facf100ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 50/67] fix: setting the step count marks a change when only
 the step size changes

---
 src/quanguru/classes/QSimBase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 22ec8ea..4f085af 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -375,7 +375,10 @@ class timeBase(stateBase):
             self._timeBase__totalTime._value = self._timeBase__totalTime._bound._value# pylint: disable=protected-access
         setAttrParam(self, '_timeBase__stepCount', num)
         if self.totalTime is not None:
-            self._timeBase__stepSize.value = self.totalTime/num # pylint: disable=assigning-non-slot
+            stepSize = self.totalTime/num
+            if stepSize != self.stepSize:
+                self._paramUpdated = True
+            self._timeBase__stepSize.value = stepSize # pylint: disable=assigning-non-slot
 
     @property
     def stepSize(self):
-- 
2.43.0


From 97091fc988105799d6dac4e95eaec36807f3c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 51/67] fix: binding a simulation to another marks it as
 changed

---
 src/quanguru/classes/QSimBase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 4f085af..d70e748 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -497,6 +497,7 @@ class timeBase(stateBase):
                         getattr(self, key)._bound = getattr(other, key) # pylint: disable=protected-access
                 except AttributeError:
                     print('not bounding', key)
+            self._paramUpdated = True
 
     def delMatrices(self, _exclude=None):
         _exclude = [] if _exclude is None else _exclude
-- 
2.43.0


From 4eb2c64e8e2b449d0223f1b6a67f688d206af6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 52/67] fix: changing the system, steps or members of a
 protocol or gate marks it as changed

---
 src/quanguru/classes/QPro.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index b355783..ef8e193 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -192,6 +192,19 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.simulation._timeBase__bound is None:
             self.simulation._bound(supSys.simulation) # pylint: disable=protected-access
         self.simulation._qBase__subSys[self] = self.superSys # pylint: disable=protected-access
+        self._paramUpdated = True
+
+    def addSubSys(self, subSys, **kwargs):
+        self._paramUpdated = True
+        return super().addSubSys(subSys, **kwargs)
+
+    def _removeSubSysExc(self, subSys, _exclude=None):
+        self._paramUpdated = True
+        super()._removeSubSysExc(subSys, _exclude=_exclude)
+
+    def resetSubSys(self):
+        self._paramUpdated = True
+        super().resetSubSys()
 
     def unitary(self):
         collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-- 
2.43.0


From 4d4cce3c6a63ee082eaf6f7b51a2fe012d8f5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 53/67] fix: changing the value of an update marks its
 protocols as changed

---
 src/quanguru/classes/QPro.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index ef8e193..e253d0d 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -147,6 +147,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def addUpdate(self, *args):
         for update in args:
             self._genericProtocol__updates.append(update) # pylint: disable=no-member
+            update._Update__protocols.append(self) # pylint: disable=protected-access
             self._paramUpdated = True
 
     @property
@@ -472,17 +473,29 @@ class Update(updateBase):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['value', '__memoryValue', '__memoryOthers', 'setup', 'setback']
+    __slots__ = ['__value', '__protocols', '__memoryValue', '__memoryOthers', 'setup', 'setback']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
-        self.value = None
+        self.__value = None
+        #: protocols that use this update, their unitary depends on the value of this
+        self.__protocols = []
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
         self.__memoryOthers = []
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
+    @property
+    def value(self):
+        return self._Update__value
+
+    @value.setter
+    def value(self, val):
+        self._Update__value = val # pylint: disable=assigning-non-slot
+        for protocol in self._Update__protocols: # pylint: disable=no-member
+            protocol._paramUpdated = True
+
     @property
     def memoryValue(self):
         return self._Update__memoryValue
-- 
2.43.0


From 121d16e01f8bfe6e0a9a35ad442dc0d467ddf27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 54/67] fix: re-assigning the system of a term marks it as
 changed

---
 src/quanguru/classes/QTerms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index d81ae9a..c6dfd5c 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -114,6 +114,7 @@ class QTerm(paramBoundBase):
         else:
             self._paramBoundBase__paramBound[qSys.name] = qSys # pylint: disable=protected-access,no-member
         setAttr(self, '_QTerm__qSys', qSys)
+        self._paramUpdated = True # order and operator are reset even if the qSystem is the same
 
     def _removeTermIfQSysInList(self, qSys, subSys):
         r"""
-- 
2.43.0


From 22907cfe3ccaee454567b9bc3219f3f545e58122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 55/67] fix: a rejected addition of a sub-system decided the
 type of the system

---
 src/quanguru/classes/QSystem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 1579d5b..82c6351 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -399,13 +399,13 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                              f"Cannot add {subSys.name} as subsystem to {self.name}. " +
                              "Circular subsystem addition is not allowed.")
 
-        if self._QuantumSystem__compSys is None: # pylint:disable=no-member
-            self._QuantumSystem__compSys = True # pylint:disable=assigning-non-slot
-        elif self._QuantumSystem__compSys is False: # pylint:disable=no-member
+        if self._QuantumSystem__compSys is False: # pylint:disable=no-member
             raise TypeError("Cannot add a sub-system to a single quantum system " + self.name)
 
         # before the dimension information is derived from the sub-system
         subSys._named__setKwargs(**kwargs)
+        if self._QuantumSystem__compSys is None: # pylint:disable=no-member
+            self._QuantumSystem__compSys = True # pylint:disable=assigning-non-slot
         if subSys not in self.subSys.values():
             self._QuantumSystem__addSub(subSys)
         subSys.superSys = self
-- 
2.43.0


From 3f44cc775dfd83e2f89e9125e5e4958700a310e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 56/67] fix: bounds between simulation parameters could become
 circular

---
 src/quanguru/classes/QSimBase.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index d70e748..4c18646 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -126,6 +126,17 @@ class _parameter: # pylint: disable=too-few-public-methods
         self._bound = False
         self._value = value
 
+    def _isBoundTo(self, other: '_parameter') -> bool:
+        r"""
+        Returns True if ``self`` gets its value from ``other`` (directly or through a chain of bounds) or is ``other``.
+        """
+        bound = self
+        while isinstance(bound, _parameter):
+            if bound is other:
+                return True
+            bound = bound._bound
+        return False
+
 class stateBase(computeBase):
     r"""
     Contains attributes and methods for ``initialState`` and a boolean to determine whether to store or
@@ -493,7 +504,8 @@ class timeBase(stateBase):
 
             for key in (*keys, *params, '_timeBase__samples'):
                 try:
-                    if ((getattr(self, key)._bound is None) or re): # pylint: disable=protected-access
+                    if (((getattr(self, key)._bound is None) or re) and # pylint: disable=protected-access
+                            not getattr(other, key)._isBoundTo(getattr(self, key))): # pylint: disable=protected-access
                         getattr(self, key)._bound = getattr(other, key) # pylint: disable=protected-access
                 except AttributeError:
                     print('not bounding', key)
-- 
2.43.0


From 9304b62787b50f546d2d3fdefe53fa914f5758f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 57/67] fix: reading the step count of a bound simulation broke
 its bound

---
 src/quanguru/classes/QSimBase.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 4c18646..c230abc 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -370,6 +370,11 @@ class timeBase(stateBase):
         use of these parameters, such as not forcing to define at least 2 of 3 timeBase parameters, if it already
         has a ``_bound`` and can obtain the second one from the ``_bound``.
         """
+        if (self.totalTime is None) and all(isinstance(par._bound, _parameter) for par in ( # pylint: disable=protected-access
+                self._timeBase__totalTime, self._timeBase__stepSize, self._timeBase__stepCount)):
+            # the bound calculates its own totalTime, because setting it here breaks the bound
+            _ = self._timeBase__bound.stepCount
+
         if self.totalTime is None:
             if not ((self.stepSize is None) and (self._timeBase__stepCount.value is None)):
                 self._timeBase__totalTime.value = self._timeBase__stepCount.value * self.stepSize # pylint: disable=E0237
-- 
2.43.0


From 49f5cd4d51e203e52760dcf1a157bda7bd7ad5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 58/67] fix: binding a simulation changed a step size that was
 set explicitly

---
 src/quanguru/classes/QSimBase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index c230abc..56fc40f 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -496,7 +496,9 @@ class timeBase(stateBase):
             bounding = True
             for ind, key in enumerate(keys):
                 if getattr(self, key)._bound is False: # pylint: disable=protected-access
-                    if getattr(other, key)._value is not None: # pylint: disable=protected-access
+                    # stepCount is set again only if it determines the stepSize, otherwise it would change the stepSize
+                    if ((getattr(other, key)._value is not None) and # pylint: disable=protected-access
+                            ((keysProp[ind] != 'stepCount') or (self.stepSize is None))):
                         setattr(self, keysProp[ind], getattr(self, key)._value) # pylint: disable=protected-access
 
                     if bounding:
-- 
2.43.0


From 4f92d6775eaaf633e7588e428e492ecdce8ab05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 59/67] fix: a total time set after the number of steps did not
 give the step size

---
 src/quanguru/classes/QSimBase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 56fc40f..c41b69a 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -358,6 +358,9 @@ class timeBase(stateBase):
         setAttrParam(self, '_timeBase__totalTime', fTime)
         if self.stepSize is not None:
             self._timeBase__stepCount.value = int((fTime//self.stepSize) + 1) # pylint: disable=assigning-non-slot
+        elif self._timeBase__stepCount.value is not None:
+            # number of steps is set before the total time
+            self._timeBase__stepSize.value = fTime/self._timeBase__stepCount.value # pylint: disable=assigning-non-slot
 
     @property
     def stepCount(self):
-- 
2.43.0


From 5e17b25788c839d6ce4827653c95829c268d4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 60/67] fix: copying a composite with a coupling to a nested
 sub-system failed

---
 src/quanguru/classes/QSystem.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 82c6351..788cc30 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -733,20 +733,28 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
     def _freeMatrix(self, qMat):
         self._firstTerm._freeMatrix = qMat # pylint: disable=protected-access
 
+    def _copyOf(self, qsys, newSys):
+        r"""
+        Returns the sub-system of ``newSys`` (a copy of ``self``) that corresponds to the (possibly nested) sub-system
+        ``qsys`` of ``self``.
+        """
+        for oldSub, newSub in zip(self.subSys.values(), newSys.subSys.values()):
+            found = newSub if oldSub is qsys else oldSub._copyOf(qsys, newSub) # pylint: disable=protected-access
+            if found is not None:
+                return found
+        return None
+
     def copy(self, **kwargs):
         newSys = super().copy()
         for qsys in self.subSys.values():
             cqsys = qsys.copy()
             cqsys.alias = qsys.name + "_" + cqsys.name
             newSys.addSubSys(cqsys)
-        subSysList = list(newSys.subSys.values())
         for terInd, ter in enumerate(self.terms.values()):
             if isinstance(ter.qSystem, QuantumSystem):
                 qSystemNames = newSys
             else:
-                qSystemNames = []
-                for qsys in ter.qSystem:
-                    qSystemNames.append(qsys.name + "_" + subSysList[qsys.ind].name)
+                qSystemNames = [self._copyOf(qsys, newSys) for qsys in ter.qSystem]
 
             if terInd > 0 or newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access
                 newSys.createTerm(qSystem=qSystemNames, #pylint:disable=no-member
-- 
2.43.0


From 25d413dc269904e0d2cfa5befe0f81f5fa824aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 61/67] fix: an alias equal to a later default name made the
 aliased object unreachable by its name

---
 src/quanguru/classes/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index a9b25e0..4362a2c 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -380,6 +380,8 @@ class named:
         self._internal: bool = checkCorType(kwargs.pop('_internal', False), bool, '_internal')
         super().__init__()
         self._incrementInstances()
+        while self._named__namer() in named._allInstacesDict: # already used, e.g., as an alias of another object
+            self._incrementInstances()
         #: protected name attribute is an instance of :class:`~named` class
         self.__name: aliasClass = aliasClass(name=self._named__namer())
         self._named__setKwargs(**kwargs)
-- 
2.43.0


From 15cb4e9195cf4e62437074747015e9d72e4706c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 62/67] fix: pickling an object made the registry of the
 sending process keep every object alive

---
 src/quanguru/classes/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 4362a2c..710789f 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -309,6 +309,11 @@ class aliasDict(dict):
         """
         return type(self)(self)
 
+    def __reduce__(self):
+        # weak references cannot be pickled, the objects are sent instead (the weak references here are left as they are)
+        items = ((k, v() if isinstance(v, weakref.ReferenceType) else v) for k, v in self.items())
+        return (type(self), (), None, None, items)
+
 class named:
     r"""
     Implements a name attribute and a naming standard. It is inhereted by all the other qObjects so that
@@ -351,9 +356,6 @@ class named:
         return k
 
     def __getstate__(self):
-        for k, v in self._allInstaces.items(): # pylint: disable=protected-access
-            if ((not isinstance(v, named)) and (v is not None)):
-                self._allInstaces[k] = v() # pylint: disable=protected-access
         state = {}
         slots = chain.from_iterable(getattr(cls, '__slots__', []) for cls in self.__class__.__mro__)
         for k in slots:
-- 
2.43.0


From 37aac3f75cf77d94215e914406decc995ec773be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 63/67] fix: refresh the Hamiltonian of a compound term when
 its sub-terms change

---
 src/quanguru/classes/QTerms.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index c6dfd5c..97df695 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -19,6 +19,7 @@
 
 """
 
+from .base import addDecorator
 from .baseClasses import paramBoundBase
 from .QSimBase import setAttr
 from .exceptions import checkCorType, checkVal, checkNotVal
@@ -116,6 +117,17 @@ class QTerm(paramBoundBase):
         setAttr(self, '_QTerm__qSys', qSys)
         self._paramUpdated = True # order and operator are reset even if the qSystem is the same
 
+    @addDecorator
+    def addSubSys(self, subSys, **kwargs):
+        r"""
+        Extends :meth:`addSubSys <qBase.addSubSys>` to also put self (the term) into the ``__paramBound`` of the
+        sub-term, because the matrix of self is constructed from its sub-terms.
+        """
+        subSys = super().addSubSys(subSys, **kwargs)
+        if isinstance(subSys, QTerm):
+            subSys._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
+        return subSys
+
     def _removeTermIfQSysInList(self, qSys, subSys):
         r"""
         removes self (the term) from the terms of given qSys if a particular subSys is in qSystem list of self.
-- 
2.43.0


From 68e84269d01ed819820b9350e099b725ca93de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 64/67] fix: normalise the symplectic eigenvector distribution

---
 src/quanguru/QuantumToolbox/rmtDistributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/rmtDistributions.py b/src/quanguru/QuantumToolbox/rmtDistributions.py
index 113e52e..625acbf 100644
--- a/src/quanguru/QuantumToolbox/rmtDistributions.py
+++ b/src/quanguru/QuantumToolbox/rmtDistributions.py
@@ -67,7 +67,7 @@ def EigenVectorDist(x: float, dim: int, beta: int = 1) -> float:
         dist = (1 - x)**(dim - 2)
     elif beta == 4:
         coef = (dim - 1)*(dim - 2)
-        dist = x*((1-x)**(dim - 1))
+        dist = x*((1-x)**(dim - 3))
     else:
         raise ValueError('unknown Dyson parameter')
     val = coef*dist
-- 
2.43.0


From ef691e7165946b1aca9c1819f4f7a5434760bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:13 +0000
Subject: [PATCH 65/67] fix: the state of a composite follows a later initial
 state of its sub-systems

---
 src/quanguru/classes/QSystem.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 788cc30..2e5b820 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -178,9 +178,6 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         checkNotVal(self._QuantumSystem__compSys,None,f'Type of {self.name} is ambiguous. Single and composite systems'+
                                                    ' handle initial state inputs differently, so you need to set other'+
                                                    f' relevant parameters to determine the type of {self.name}')
-        if self.superSys is not None:
-            self.superSys.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
-
         if self._isComposite:
             if not isinstance(inp, (ndarray, spmatrix)):
                 checkCorType(inp, (list, tuple), 'Composite state initial state input')
@@ -189,6 +186,24 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 for ind, qsys in enumerate(self.subSys.values()):
                     qsys.initialState = inp[ind]
         self.simulation.initialState = inp # pylint: disable=no-member, protected-access
+        if self.superSys is not None:
+            self.superSys._updateInitialState(self, inp) # pylint: disable=protected-access
+
+    def _updateInitialState(self, subSys, inp):
+        r"""
+        called by the initial state setter of a sub-system. The state has to be created again, from an input that contains
+        the new input of the sub-system. An array given as the initial state of a composite is not changed.
+        """
+        oldInp = self.simulation._initialStateInput
+        if isinstance(oldInp, (list, tuple)) and (len(oldInp) == len(self.subSys)):
+            newInp = list(oldInp)
+            newInp[subSys.ind] = inp
+            self.simulation._initialStateInput = newInp
+        else:
+            newInp = oldInp
+        self.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
+        if self.superSys is not None:
+            self.superSys._updateInitialState(self, newInp)
 
     @property
     def _subSysHamiltonian(self):
-- 
2.43.0


From a02856c5a559b9ed6972a7b90299b9434385048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:47 +0000
Subject: [PATCH 66/67] fix: HusimiQ accepts kets given as column vectors

---
 src/quanguru/QuantumToolbox/quasiProbabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/quasiProbabilities.py b/src/quanguru/QuantumToolbox/quasiProbabilities.py
index 3661bc2..be5fee1 100644
--- a/src/quanguru/QuantumToolbox/quasiProbabilities.py
+++ b/src/quanguru/QuantumToolbox/quasiProbabilities.py
@@ -179,7 +179,7 @@ def _qfuncPure(psi: Matrix, alphaMat: ndarray) -> ndarray:
     """
 
     n = np.prod(psi.shape)
-    psi = psi.T
+    psi = psi.flatten()
 
     qmat = abs(polyval(fliplr([psi / np.sqrt(factorial(arange(n)))])[0], conjugate(alphaMat))) ** 2
 
-- 
2.43.0


From e7f89e5efb1dbaa6a1b8b2982aefb28e712e6e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:47 +0000
Subject: [PATCH 67/67] fix: HusimiQ of density matrices with repeated
 eigenvalues uses orthonormal eigenvectors

---
 src/quanguru/QuantumToolbox/quasiProbabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/quasiProbabilities.py b/src/quanguru/QuantumToolbox/quasiProbabilities.py
index be5fee1..fe9c68b 100644
--- a/src/quanguru/QuantumToolbox/quasiProbabilities.py
+++ b/src/quanguru/QuantumToolbox/quasiProbabilities.py
@@ -142,7 +142,7 @@ def HusimiQ(state: Matrix, vec: ndOrList, g: float = np.sqrt(2)) -> ndarray:
     if state.shape[0] != state.shape[1]:
         qmat = _qfuncPure(state, amat)
     else:
-        d, v = la.eig(state)
+        d, v = la.eigh(state)
         # d[i]   = eigenvalue i
         # v[:,i] = eigenvector i
 
-- 
2.43.0


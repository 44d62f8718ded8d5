From 9bf471bb4d782e832b32d5d5c9a4d23b987bc3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 001/114] fix: TimeStep::reset() starts from the start time of
 the simulation, not from zero

---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 96f69ae..25639de 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -211,7 +211,8 @@ bool TimeStep::reset (int istep)
   if (istep == 0)
     stopTime = mySteps.back().second;
   time.dt = mySteps.front().first.front();
-  time.dtn = time.t = time.CFL = 0.0;
+  time.dtn = time.CFL = 0.0;
+  time.t = starTime;
   for (int i = 0; i < istep; i++)
     if (!this->increment())
       return false;
-- 
2.43.0


From 16ca7b01a8f9e32c8bf74d1c8108cb04f7594426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 002/114] fix: time step cut-back past a segment end must not
 alter the increments of the next segment

---
 src/SIM/TimeStep.C | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 25639de..3f0fb01 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -225,6 +225,14 @@ bool TimeStep::increment ()
 {
   time.dtn = time.dt;
 
+  if (stepIt != mySteps.end() && step > 0)
+    if (this->hasReached(stepIt->second))
+    {
+      // The previous step completed the current time segment
+      lstep = 0;
+      ++stepIt;
+    }
+
   if (maxCFL > 0.0 && time.CFL > 1.0e-12) {
     // Increase CFL by a given factor
     if (step > nInitStep) {
@@ -261,34 +269,24 @@ bool TimeStep::increment ()
       IFEM::cout <<"\n  Time integration completed."<< std::endl;
     return false;
   }
-  else if (step++ == maxStep && maxStep > 0)
+  else if (step >= maxStep && maxStep > 0)
   {
     IFEM::cout <<"\n  ** Terminating, maximum number of time steps reached."
                << std::endl;
     return false;
   }
 
+  ++step;
   niter = iter;
   time.t += time.dt;
 
-  if (stepIt != mySteps.end())
-  {
-    if (stepIt->first.size() <= lstep)
-      stepIt->first.push_back(time.dt);
-
+  if (stepIt != mySteps.end() && time.t != stepIt->second)
     if (this->hasReached(stepIt->second))
     {
-      if (time.t != stepIt->second)
-      {
-        // Adjust the size of the last time step
-        time.dt += stepIt->second - time.t;
-        time.t = stepIt->second;
-        stepIt->first.back() = time.dt;
-      }
-      lstep = 0;
-      ++stepIt;
+      // Adjust the size of the last time step in this segment
+      time.dt += stepIt->second - time.t;
+      time.t = stepIt->second;
     }
-  }
 
   if (time.t > stopTime)
   {
@@ -320,8 +318,6 @@ bool TimeStep::cutback ()
   niter = 10;
   time.first = 'c';
   time.t += time.dt - dt;
-  if (stepIt != mySteps.end())
-    stepIt->first.back() = time.dt;
 
   IFEM::cout <<"  ** Iterations diverged, trying cut-back with dt="
              << time.dt << std::endl;
-- 
2.43.0


From aa3dfdd6dfe796b60e03696db672b111cdf0b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 003/114] fix: restored TimeStep continues with the saved time
 and increment

---
 src/SIM/TimeStep.C | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 3f0fb01..f0d9db4 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -358,6 +358,19 @@ bool TimeStep::serialize (std::map<std::string,std::string>& data) const
     doSerializeOps(ar,*const_cast<TimeStep*>(this));
   }
   data.insert(std::make_pair("TimeStep",str.str()));
+
+  // Save also the iteration counts and the local step counter, which affect
+  // the size of the next increment and can not be derived from the step counter
+  std::ostringstream local;
+  {
+    cereal::BinaryOutputArchive ar(local);
+    bool newSeg = stepIt != mySteps.end() && this->hasReached(stepIt->second);
+    int  istep  = newSeg ? 0 : lstep;
+    ar(iter);
+    ar(niter);
+    ar(istep);
+  }
+  data.insert(std::make_pair("TimeStep::local",local.str()));
   return true;
 #else
   return false;
@@ -373,7 +386,26 @@ bool TimeStep::deSerialize (const std::map<std::string,std::string>& data)
     std::stringstream str(it->second);
     cereal::BinaryInputArchive ar(str);
     doSerializeOps(ar,*this);
-    return this->reset(step);
+
+    std::map<std::string,std::string>::const_iterator lit = data.find("TimeStep::local");
+    if (lit == data.end()) // Old restart file, replay the increments instead
+      return this->reset(step);
+
+    int istep = 0;
+    std::stringstream local(lit->second);
+    cereal::BinaryInputArchive lar(local);
+    lar(iter);
+    lar(niter);
+    lar(istep);
+    lstep = istep;
+
+    // Find the time segment of the next increment
+    stepIt = mySteps.begin();
+    if (step > 0)
+      while (stepIt != mySteps.end() && this->hasReached(stepIt->second))
+        ++stepIt;
+
+    return true;
   }
 #endif
   return false;
-- 
2.43.0


From 05785aff177ceff13a8d4af2f6c59989b4f56470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 004/114] fix: copying a TimeStep keeps the position in the
 increment table

---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index f0d9db4..c0ae238 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -54,7 +54,8 @@ TimeStep& TimeStep::operator= (const TimeStep& ts)
 
   time = ts.time;
   mySteps = ts.mySteps;
-  stepIt = mySteps.begin();
+  TimeSteps::const_iterator tsIt = ts.stepIt;
+  stepIt = mySteps.begin() + (tsIt - ts.mySteps.begin());
   return *this;
 }
 
-- 
2.43.0


From 3cc138e26e867091a401c6650073b549b7f02dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 005/114] fix: SIMSolverTS rewinds the time and not only the
 step counter when re-solving

---
 Apps/Utils/SIMSolverTS.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Apps/Utils/SIMSolverTS.h b/Apps/Utils/SIMSolverTS.h
index 67ef98a..e6c92cd 100644
--- a/Apps/Utils/SIMSolverTS.h
+++ b/Apps/Utils/SIMSolverTS.h
@@ -93,7 +93,7 @@ public:
     while (!this->tp.finished())
     {
       this->S1.saveState(); // Save current solution state internally
-      int tranStep = this->tp.step; // Time step of next solution transfer
+      const TimeStep tranStep(this->tp); // Time of next solution transfer
       int lastRef = 1, refElms = 0;
 
       // Prediction cycle loop, disable staggering cycles
@@ -103,8 +103,8 @@ public:
         lastRef = 0;
         if (iPred > 0)
         {
-          // Reset time step counter to the last saved state
-          this->tp.reset(tranStep);
+          // Reset time stepping to the last saved state
+          this->tp = tranStep;
           // Save current solution state internally for the refined mesh
           this->S1.saveState();
         }
@@ -147,7 +147,7 @@ public:
         // Either the mesh was refined or we were doing prediction steps
         // without staggering cycles. Now continue (at most) nForward steps
         // without checking for further refinement at those steps.
-        this->tp.reset(tranStep);
+        this->tp = tranStep;
         IFEM::cout <<"\n  >>> Resuming simulation from time="<< this->tp.time.t;
         if (lastRef > 0)
         {
-- 
2.43.0


From 6b13f8ec3f78a8c9c36f97a8af2ad9e8218a5d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 006/114] fix: SAM::getNodeAndLocalDof returned the DOF before
 the one of the given equation

---
 src/LinAlg/SAM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 53f2cac..8989222 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -103,7 +103,7 @@ std::pair<int,int> SAM::getNodeAndLocalDof (int idof, bool eqno) const
   if (eqno)
   {
     if (int* eq = std::find(meqn,meqn+ndof,idof); eq != meqn+ndof)
-      idof = std::distance(meqn,eq);
+      idof = std::distance(meqn,eq) + 1;
     else
       return { 0, 0 };
   }
-- 
2.43.0


From a7a14137b9982523caae8b6f54e564da8f90aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 007/114] fix: SAM::assembleSystem must sum the reactions from
 all constrained element DOFs

---
 src/LinAlg/SAM.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 8989222..bb77de0 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -455,7 +455,7 @@ bool SAM::assembleSystem (SystemMatrix& sysK, SystemVector& sysRHS,
 	if (meen[i-1] < 1)
 	{
 	  eS.resize(eK.rows());
-	  eS(i) = -c0*eK(i,j);
+	  eS(i) -= c0*eK(i,j);
 	}
     }
 
@@ -503,7 +503,7 @@ bool SAM::assembleSystem (SystemVector& sysRHS,
       if (reactionForces && ieq < 1)
       {
         eS.resize(eK.rows());
-        eS(i) = -c0*eK(i,j);
+        eS(i) -= c0*eK(i,j);
       }
     }
   }
-- 
2.43.0


From f29e91f8ad4cfdeaa9c56dbe151c1fc0c8311e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 008/114] fix: SAMpatch::updateConstraintEqs must give the
 increment also when the new offset is zero or there are masters

---
 src/ASM/SAMpatch.C | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index 97c7e74..dc48df5 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -366,12 +366,16 @@ bool SAMpatch::updateConstraintEqs (const Vector* prevSol)
 
   // Recursive lambda function for updating master DOFs.
   std::function<void(const MPC::DOF&,Real&,int&,Real)> update;
-  update = [this,&update](const MPC::DOF& master,
-                          Real& offset, int& ipeq, Real scale)
+  update = [this,prevSol,&update](const MPC::DOF& master,
+                                  Real& offset, int& ipeq, Real scale)
   {
     int idof = madof[master.node-1] + master.dof - 1;
     if (msc[idof-1] > 0 && mmceq[++ipeq] == idof)
+    {
       ttcc[ipeq] = master.coeff*scale;
+      if (idof <= (int)prevSol->size())
+        offset += ttcc[ipeq]*(*prevSol)(idof);
+    }
     else if (master.nextc)
     {
       scale *= master.coeff;
@@ -405,7 +409,7 @@ bool SAMpatch::updateConstraintEqs (const Vector* prevSol)
         update((*cit)->getMaster(i),c0,ipeq,Real(1));
 
       // Update the constant term of the constraint equation
-      if (!prevSol || c0 == Real(0)) // Note: c0=0 means no constant offset
+      if (!prevSol)
         ttcc[jpeq] = Real(0);
       else if (idof <= (int)prevSol->size())
 	ttcc[jpeq] = c0 - (*prevSol)(idof);
-- 
2.43.0


From 164866a3eeac44914144971962d054d07c99c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 009/114] fix: ASMbase::addMPC used the erased set iterator
 when overriding a constraint

---
 src/ASM/ASMbase.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index fc8e667..dc85638 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -562,9 +562,10 @@ bool ASMbase::addMPC (MPC*& mpc, int code, bool verbose, bool overrideD)
     if (verbose)
       std::cout <<"Replacing constraint "<< **mit.first <<" by "<< *mpc;
 #endif
-    dCode.erase(*mit.first);
+    MPC* oldMPC = *mit.first;
+    dCode.erase(oldMPC);
     mpcs.erase(mit.first);
-    delete *mit.first;
+    delete oldMPC;
     mpcs.insert(mpc);
     if (code > 0) dCode[mpc] = code;
     return true;
-- 
2.43.0


From 617b61ee33de5a1393e365708adebbadb6c07fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 010/114] fix: ASMbase::resolveMPCchains must not replace a
 fixed master by the masters of an ignored constraint

---
 src/ASM/ASMbase.C | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index dc85638..5cbc5e9 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1105,7 +1105,7 @@ void ASMbase::resolveMPCchains (const MPCSet& allMPCs,
 #endif
 
   // Recursive lambda function for resolving the chained MPC-equations.
-  std::function<bool(MPC*)> resolve = [&allMPCs,&resolve](MPC* mpc)
+  std::function<bool(MPC*)> resolve = [&allMPCs,&model,&resolve](MPC* mpc)
   {
     if (!mpc) return false;
 
@@ -1113,6 +1113,14 @@ void ASMbase::resolveMPCchains (const MPCSet& allMPCs,
     for (size_t i = 0; i < mpc->getNoMaster();)
     {
       MPC master(mpc->getMaster(i).node,mpc->getMaster(i).dof);
+      if (std::any_of(model.begin(),model.end(),[&master](const ASMbase* pch) {
+            return pch->isFixed(master.getSlave().node,master.getSlave().dof);
+          }))
+      {
+        mpc->removeMaster(i); // This master DOF is fixed, has no contribution
+        continue;
+      }
+
       if (MPCIter cit = allMPCs.find(&master); cit != allMPCs.end())
       {
         // We have a master DOF which is a slave in another constraint equation.
-- 
2.43.0


From e0c9ad9e69bab77de54329fd3d9bbee7ba136526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 011/114] fix: SparseMatrix::multiply for column-compressed
 UMFPACK matrices

---
 src/LinAlg/SparseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 3806803..b7bda08 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -588,7 +588,7 @@ bool SparseMatrix::multiply (const SystemVector& B, SystemVector& C) const
   if (editable)
     for (const ValueMap::value_type& val : elem)
       (*Cptr)(val.first.first) += val.second*(*Bptr)(val.first.second);
-  else if (solver == SUPERLU) {
+  else if (solver == SUPERLU || solver == UMFPACK) {
     double* y = Cptr->ptr();
 #pragma omp parallel for schedule(static) reduction(+:y[0:nrow])
       for (size_t j = 1; j <= ncol; j++)
-- 
2.43.0


From 372b683ad53cc63ed0f1c43e32bca56027a0d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 012/114] fix: SparseMatrix::assembleCol ignored the weights of
 the constraint equations

---
 src/LinAlg/SparseMatrix.C | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index b7bda08..347e44a 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -706,10 +706,11 @@ static void assemSparse (const RealArray& V, SparseMatrix& SM, size_t col,
       SM(ieq,col) += vd;
     else if (ceq > 0)
       for (int ip = mpmceq[ceq-1]; ip < mpmceq[ceq]-1; ip++)
-      {
-        ieq = meqn[mmceq[ip]-1];
-        SM(ieq,col) += vd;
-      }
+        if (mmceq[ip] > 0)
+        {
+          ieq = meqn[mmceq[ip]-1];
+          SM(ieq,col) += ttcc[ip]*vd;
+        }
   }
 }
 
-- 
2.43.0


From d1a33f3c6027adc8758c23a490ec4d91c602e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 013/114] fix: SAMpatch::merge must recount elements,
 constraints and specified DOFs from the merged patches

---
 src/ASM/ASMbase.C  |  5 ++++-
 src/ASM/SAMpatch.C | 12 +++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index 5cbc5e9..fd987d1 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1492,7 +1492,10 @@ void ASMbase::shiftGlobalNodeNums (int nshift)
 void ASMbase::shiftGlobalElmNums (int eshift)
 {
   for (int& iel : myMLGE)
-    iel += eshift;
+    if (iel > 0) // Leave the inactive (zero-volume) elements as they are
+      iel += eshift;
+    else if (iel < 0)
+      iel -= eshift;
 }
 
 
diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index dc48df5..c799ba6 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -313,6 +313,7 @@ bool SAMpatch::initConstraintEqs ()
                   << idof <<" ("<< (*cit)->getSlave()
                   <<").\n          This dof is already marked as "
                   << (msc[idof-1] == 0 ? "FIXED." : "SLAVE.") << std::endl;
+	(*cit)->iceq = -1;
 	ip--;
 	nceq--;
 	continue;
@@ -448,9 +449,12 @@ bool SAMpatch::merge (const SAM* other, const std::map<int,int>* old2new)
 
   // Reinitialize some model size parameters
   nnod += that->nnod;
-  nel  += that->nel;
-  nceq += that->nceq;
-  neq   = 0;
+  neq = nel = nceq = nspdof = nmmnpc = nmmceq = 0;
+  for (const ASMbase* pch : model)
+  {
+    nel += pch->getNoElms(false,true);
+    nceq += pch->getNoMPCs();
+  }
 
   if (!nodeType.empty())
     nodeType.resize(nnod,'0');
@@ -462,6 +466,8 @@ bool SAMpatch::merge (const SAM* other, const std::map<int,int>* old2new)
     if (!that->dof_type.empty())
       dof_type.insert(dof_type.end(),
                       that->dof_type.begin(),that->dof_type.end());
+    else
+      dof_type.resize(dof_type.size()+that->ndof,'D');
   }
 
   // Reinitialize the node/dof arrays (madof,msc) and compute ndof
-- 
2.43.0


From 2f8c71d84e8383d00daccf8aa79b35b3c846ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 014/114] fix: ASMbase::isFixed and SIMbase::isFixed must check
 all given DOFs of the given node

---
 src/ASM/ASMbase.C |  2 +-
 src/SIM/SIMbase.C | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index fd987d1..380cbf6 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -517,7 +517,7 @@ bool ASMbase::isFixed (int node, int dof, bool all) const
   if (dof < 10 || !all)
     bit = std::find_if(BCode.begin(),BCode.end(),fixed(node,dof));
   else for (int d = dof; d > 0 && bit != BCode.end(); d /= 10)
-    if (d <= nf)
+    if (d%10 <= nf)
       bit = std::find_if(BCode.begin(),BCode.end(),fixed(node,d%10));
 
   return bit != BCode.end();
diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index a1ca49c..3eebb67 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1677,11 +1677,16 @@ Vec4 SIMbase::getNodeCoord (int inod) const
 
 bool SIMbase::isFixed (int inod, int dof) const
 {
+  bool found = false;
   for (ASMbase* pch : myModel)
-    if (size_t node = pch->getNodeIndex(inod,true); node > 0)
-      return pch->isFixed(node,dof,true);
+    if (pch->getNodeIndex(inod,true) > 0)
+    {
+      found = true;
+      if (pch->isFixed(inod,dof,true))
+        return true;
+    }
 
-  return true;
+  return !found;
 }
 
 
-- 
2.43.0


From 989b2b52ce801fb85c1781946409f7a57d8ead6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 015/114] fix: SparseMatrix::dump printed wrong values for the
 row-oriented format

---
 src/LinAlg/SparseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 347e44a..dbcb604 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -387,7 +387,7 @@ void SparseMatrix::dump (std::ostream& os, LinAlg::StorageFormat format,
     for (size_t i = 1; i <= nrow; i++)
       for (int j = IA[i-1]; j < IA[i]; j++)
         if (i > 1 || j != IA.front())
-          os << end << i <<' '<< JA[j-1] <<' '<< A[i-1];
+          os << end << i <<' '<< JA[j-1] <<' '<< A[j-1];
   }
 
   if (format == LinAlg::MATLAB) os <<"]";
-- 
2.43.0


From 0c5e78ecd74bc2056cac0f1ecf1942dfaa90cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 016/114] fix: update all references to a merged node number,
 also in indirectly connected patches

---
 src/ASM/ASMbase.C | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index 380cbf6..a0c1e77 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1331,12 +1331,20 @@ bool ASMbase::mergeNodes (size_t inod, int globalNum, bool verbose)
     IFEM::cout <<"  ** Merging duplicated nodes "<< globalNum <<" and "<< oldNum
                <<" at X="<< this->getCoord(inod) << std::endl;
 
-  IntMap old2New;
-  myMLGN[inod-1] = old2New[oldNum] = globalNum;
-  for (ASMbase* pch : neighbors)
-    pch->renumberNodes(old2New,{},1);
-
-  return this->renumberNodes(old2New);
+  // Update all references to the old number, in this patch and in all other
+  // patches connected to it, either directly or through other patches
+  IntMap old2New{{oldNum,globalNum}};
+  ASM::PatchVec patches(1,this);
+  for (size_t i = 0; i < patches.size(); i++)
+    for (ASMbase* pch : patches[i]->neighbors)
+      if (std::find(patches.begin(),patches.end(),pch) == patches.end())
+        patches.push_back(pch);
+
+  bool ok = true;
+  for (ASMbase* pch : patches)
+    ok &= pch->renumberNodes(old2New,{},1);
+
+  return ok;
 }
 
 
-- 
2.43.0


From 021ab686150302ce033a54b0e567e1f2223145d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 017/114] fix: rebuild the sorted constraint sets when the
 nodes are renumbered

---
 src/ASM/ASMbase.C | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index a0c1e77..a7278b2 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1429,8 +1429,25 @@ bool ASMbase::renumberNodes (const IntMap& old2new, const IntVec& new2old,
       ++invalid;
     }
 
+  // Rebuild the sorted MPC containers since the sorting key is the slave node
+  std::vector<std::pair<MPC*,int>> allMPCs;
+  allMPCs.reserve(mpcs.size());
   for (MPC* mpc : mpcs)
-    invalid += mpc->renumberNodes(old2new,printInvalidNodes);
+  {
+    MPCMap::const_iterator cit = dCode.find(mpc);
+    allMPCs.emplace_back(mpc, cit == dCode.end() ? 0 : cit->second);
+  }
+
+  mpcs.clear();
+  dCode.clear();
+  for (const std::pair<MPC*,int>& mpc : allMPCs)
+  {
+    invalid += mpc.first->renumberNodes(old2new,printInvalidNodes);
+    if (!mpcs.insert(mpc.first).second)
+      delete mpc.first; // another constraint now has the same slave DOF
+    else if (mpc.second)
+      dCode[mpc.first] = mpc.second;
+  }
 
   if (invalid > 0 && renumAll)
   {
-- 
2.43.0


From 82bf24ffeb8faee1f8c4c2ec80bd8bfeadaf7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 018/114] fix: account for already merged nodes when merging
 duplicated nodes

---
 src/SIM/SIMbase.C | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 3eebb67..3b179b9 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -264,6 +264,7 @@ bool SIMbase::preprocessC (const IntVec& ignored, bool fixDup, double time0)
   {
     // Check for duplicated nodes (missing topology)
     int nDupl = 0;
+    std::map<int,int> mergedNodes;
     std::map<Vec3,int> globalNodes;
     for (ASMbase* pch : myModel)
       if (!pch->empty())
@@ -273,12 +274,28 @@ bool SIMbase::preprocessC (const IntVec& ignored, bool fixDup, double time0)
         {
           Vec3 X(pch->getCoord(node));
           std::map<Vec3,int>::const_iterator xit = globalNodes.find(X);
+          int oldNum = pch->getNodeID(node);
           if (xit == globalNodes.end())
-            globalNodes.emplace(X,pch->getNodeID(node));
-          else if (pch->mergeNodes(node,xit->second))
+          {
+            globalNodes.emplace(X,oldNum);
+            continue;
+          }
+
+          // Account for that also the first node found in this point might have
+          // been merged with another node since it was visited
+          int globalNum = xit->second;
+          std::map<int,int>::const_iterator it = mergedNodes.find(globalNum);
+          for (; it != mergedNodes.end(); it = mergedNodes.find(globalNum))
+            globalNum = it->second;
+
+          if (pch->mergeNodes(node,globalNum))
           {
             nDupl++;
-            myDupNodes.insert(xit->second);
+            myDupNodes.insert(globalNum);
+            mergedNodes[oldNum] = globalNum;
+            // Other patches may also refer to the node that was removed
+            for (ASMbase* other : myModel)
+              other->renumberNodes({{oldNum,globalNum}},{},1);
           }
         }
       }
-- 
2.43.0


From ae2f27c7cb19c060f0b1bac706c4d90517ec7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 019/114] fix: DenseMatrix::initAssembly must forget the
 factorisation of the old matrix

---
 src/LinAlg/DenseMatrix.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 76ec505..98cb690 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -79,6 +79,10 @@ DenseMatrix::DenseMatrix (const Matrix& A, bool s) : myMat(A)
 void DenseMatrix::initAssembly (const SAM& sam, char)
 {
   myMat.resize(sam.neq,sam.neq,true);
+
+  // Delete pivotation vector of old factorization, if any
+  delete[] ipiv;
+  ipiv = nullptr;
 }
 
 
-- 
2.43.0


From 9b52fe96b673d72ce618e33f388154efc978d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 020/114] fix: DenseMatrix::dump of a rectangular matrix in
 Matrix Market format

---
 src/LinAlg/DenseMatrix.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 98cb690..f01337d 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -110,8 +110,8 @@ void DenseMatrix::dump (std::ostream& os, LinAlg::StorageFormat format,
       if (label)
         os <<"\n% label = "<< label;
       os <<'\n' << myMat.rows() <<' '<< myMat.cols();
-      for (size_t j = 1; j <= myMat.rows(); j++)
-        for (size_t i = 1; i <= myMat.cols(); i++)
+      for (size_t j = 1; j <= myMat.cols(); j++)
+        for (size_t i = 1; i <= myMat.rows(); i++)
           os <<'\n'<< myMat(i,j);
       os << std::endl;
       break;
-- 
2.43.0


From 691c83c1581ed0bfb350cb86f211b3f26781ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 021/114] fix: DenseMatrix::augment must not shrink the matrix

---
 src/LinAlg/DenseMatrix.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index f01337d..f5cc118 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -15,6 +15,7 @@
 #include "SparseMatrix.h"
 #include "SAM.h"
 #include "LAPack.h"
+#include <algorithm>
 #include <fstream>
 #include <sstream>
 
@@ -423,7 +424,7 @@ bool DenseMatrix::augment (const Matrix& B, size_t r0, size_t c0)
   size_t newCol = c0 + B.cols();
   size_t newDim = newRow > newCol ? newRow : newCol;
 
-  this->redim(newDim,newDim);
+  this->redim(std::max(newDim,myMat.rows()),std::max(newDim,myMat.cols()));
   for (size_t c = 1; c <= B.cols(); c++)
     for (size_t r = 1; r <= B.rows(); r++)
     {
@@ -444,7 +445,7 @@ bool DenseMatrix::augment (const SparseMatrix& B, size_t r0, size_t c0)
   size_t newCol = c0 + B.cols();
   size_t newDim = newRow > newCol ? newRow : newCol;
 
-  this->redim(newDim,newDim);
+  this->redim(std::max(newDim,myMat.rows()),std::max(newDim,myMat.cols()));
   for (const ValueMap::value_type& val : B.getValues())
   {
     myMat(r0+val.first.first,c0+val.first.second) += val.second;
-- 
2.43.0


From 642e37b891e87ef5c1f56aeae981a11f12e11f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 022/114] fix: DenseMatrix::redim left old values behind when
 the number of coefficients was unchanged

---
 src/LinAlg/DenseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index f5cc118..8ec74f4 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -468,7 +468,7 @@ bool DenseMatrix::redim (size_t r, size_t c)
     }
 
   Matrix tmp(myMat);
-  myMat.resize(r,c);
+  myMat.resize(r,c,true);
   for (size_t i = 1; i <= c && i <= tmp.cols(); i++)
     myMat.fillColumn(i,tmp.getColumn(i));
 
-- 
2.43.0


From 242a59e6b07329a55328ee075d7ec6a81abe7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 023/114] fix: DenseMatrix::add of a diagonal wrote outside
 matrices with more rows than columns

---
 src/LinAlg/DenseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 8ec74f4..cf7be70 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -500,7 +500,7 @@ bool DenseMatrix::add (Real sigma, int ieq)
   else if (ieq > 0)
     myMat(ieq,ieq) += sigma;
   else
-    cblas_daxpy(myMat.rows(),sigma,&sigma,0,myMat.ptr(),myMat.rows()+1);
+    cblas_daxpy(std::min(myMat.rows(),myMat.cols()),sigma,&sigma,0,myMat.ptr(),myMat.rows()+1);
 
   return this->flagNonZeroEq(ieq);
 }
-- 
2.43.0


From 9459b723221ebf742381f8f7478f4ac31807ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 024/114] fix: DiagMatrix::solve must solve for all the
 right-hand-side vectors

---
 src/LinAlg/DiagMatrix.C | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/DiagMatrix.C b/src/LinAlg/DiagMatrix.C
index 3179d41..a73dc3e 100644
--- a/src/LinAlg/DiagMatrix.C
+++ b/src/LinAlg/DiagMatrix.C
@@ -203,14 +203,19 @@ bool DiagMatrix::solve (SystemVector& B, Real*)
   if (myMat.empty()) return true; // Nothing to solve
 
   int nzero = 0;
-  Real* b = B.getPtr();
   for (Real pivot : myMat)
     if (fabs(pivot) < 1.0e-16)
       ++nzero;
-    else
-      *(b++) /= pivot;
 
-  if (nzero == 0) return true;
+  if (nzero == 0)
+  {
+    Real* b = B.getPtr();
+    for (size_t nrhs = B.dim()/myMat.size(); nrhs > 0; nrhs--)
+      for (Real pivot : myMat)
+        *(b++) /= pivot;
+    return true;
+  }
+
   std::cerr <<" *** DiagMatrix::solve: Singular matrix, "
             << nzero <<" pivot elements are zero."<< std::endl;
   return false;
-- 
2.43.0


From ec1163d4a6e68af841227c50c2aaad6703f5ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 025/114] fix: DiagMatrix::multiply must set the size of the
 resulting vector

---
 src/LinAlg/DiagMatrix.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LinAlg/DiagMatrix.C b/src/LinAlg/DiagMatrix.C
index a73dc3e..7868ab0 100644
--- a/src/LinAlg/DiagMatrix.C
+++ b/src/LinAlg/DiagMatrix.C
@@ -187,6 +187,8 @@ bool DiagMatrix::add (Real sigma, int ieq)
 
 bool DiagMatrix::multiply (const SystemVector& B, SystemVector& C) const
 {
+  C.redim(myMat.size());
+
   const Real* a = myMat.ptr();
   const Real* b = B.getRef();
   Real*       c = C.getPtr();
-- 
2.43.0


From 5053f57cc6dd1af611064adcd43f8376b7f2d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 026/114] fix: SparseMatrix::dump of a compressed matrix whose
 first row or column is empty

---
 src/LinAlg/SparseMatrix.C | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index dbcb604..6c2d84c 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -374,20 +374,16 @@ void SparseMatrix::dump (std::ostream& os, LinAlg::StorageFormat format,
   else if (solver == SUPERLU || solver == UMFPACK)
   {
     // Column-oriented format with 0-based indices
-    os << JA.front()+1 <<" 1 "<< A[0];
     for (size_t j = 1; j <= ncol; j++)
       for (int i = IA[j-1]; i < IA[j]; i++)
-        if (j > 1 || i != IA.front())
-          os << end << JA[i]+1 <<' '<< j <<' '<< A[i];
+        os << (i > 0 ? end : "") << JA[i]+1 <<' '<< j <<' '<< A[i];
   }
   else
   {
     // Row-oriented format with 1-based indices
-    os <<"1 "<< JA.front() <<' '<< A[0];
     for (size_t i = 1; i <= nrow; i++)
       for (int j = IA[i-1]; j < IA[i]; j++)
-        if (i > 1 || j != IA.front())
-          os << end << i <<' '<< JA[j-1] <<' '<< A[j-1];
+        os << (j > 1 ? end : "") << i <<' '<< JA[j-1] <<' '<< A[j-1];
   }
 
   if (format == LinAlg::MATLAB) os <<"]";
-- 
2.43.0


From 775a0066a57303f8c60261e45a85e293e3550c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 027/114] fix: SparseMatrix::add must use the storage format of
 the added matrix

---
 src/LinAlg/SparseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 6c2d84c..80b5cd1 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -540,7 +540,7 @@ bool SparseMatrix::add (const SystemMatrix& B, Real alpha)
   }
   else if (editable == 'P')
   {
-    if (solver == SUPERLU || solver == UMFPACK)
+    if (Bptr->solver == SUPERLU || Bptr->solver == UMFPACK)
       // Column-oriented format with 0-based indices
       for (size_t j = 1; j <= Bptr->ncol; j++)
         for (int i = Bptr->IA[j-1]; i < Bptr->IA[j]; i++)
-- 
2.43.0


From 639bf65363892811271578e72b1e1dbf45462c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 028/114] fix: SparseMatrix::calcCSR must overwrite the content
 of the given array

---
 src/LinAlg/SparseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 80b5cd1..ef20bd4 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -1424,7 +1424,7 @@ Real SparseMatrix::Linfnorm () const
 void SparseMatrix::calcCSR (IntVec& iA, IntVec& jA) const
 {
   size_t nnz = elem.size();
-  iA.resize(nrow+1,nnz);
+  iA.assign(nrow+1,nnz);
   jA.resize(nnz);
 
   iA.front() = 0;
-- 
2.43.0


From 55d5e892c6651073349937ffc8a4b44005493a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 029/114] fix: SparseMatrix::preAssemble locked an empty
 sparsity pattern for the row-oriented format

---
 src/LinAlg/SparseMatrix.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index ef20bd4..a141f4b 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -737,7 +737,9 @@ void SparseMatrix::preAssemble (const SAM& sam, bool delayLocking)
   // If we are not locking the sparsity pattern yet, the index pair map over
   // the non-zero matrix elements needs to be initialized before the assembly.
   // This is used when SAM::getDofCouplings() does not return all connectivities
-  if (delayLocking) // that will exist in the final matrix.
+  // that will exist in the final matrix, and with all storage formats that are
+  // not created directly from the connectivities.
+  if (delayLocking || (solver != SUPERLU && solver != UMFPACK))
     for (size_t i = 0; i < dofc.size(); i++)
       for (int j : dofc[i])
         (*this)(i+1,j) = 0.0;
-- 
2.43.0


From 0664dbfed7b44b23c2c695b9e8af11bfb3c651c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 030/114] fix: DenseMatrix::add of a diagonal added the square
 of the given value

---
 src/LinAlg/DenseMatrix.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index cf7be70..6d3d0f8 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -499,8 +499,8 @@ bool DenseMatrix::add (Real sigma, int ieq)
     return false;
   else if (ieq > 0)
     myMat(ieq,ieq) += sigma;
-  else
-    cblas_daxpy(std::min(myMat.rows(),myMat.cols()),sigma,&sigma,0,myMat.ptr(),myMat.rows()+1);
+  else for (size_t i = 1; i <= myMat.rows() && i <= myMat.cols(); i++)
+    myMat(i,i) += sigma;
 
   return this->flagNonZeroEq(ieq);
 }
-- 
2.43.0


From 15dedd83c4dc44125758e60067aefdedf98a0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 031/114] fix: SparseMatrix::solve crashed on a structurally
 singular matrix

---
 src/LinAlg/SparseMatrix.C | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index a141f4b..1eb99db 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -1148,6 +1148,15 @@ bool SparseMatrix::solveSLUx (Vector& B, Real* rcond)
   if (!factored)
     this->optimiseCols();
 
+  // The SuperLU drivers do not survive a matrix with empty columns
+  for (size_t c = 0; c < ncol; c++)
+    if (IA[c] == IA[c+1])
+    {
+      std::cerr <<"SparseMatrix::solve: Singular matrix, column "<< c+1
+                <<" has no non-zero terms."<< std::endl;
+      return false;
+    }
+
   int ierr = -99;
 #ifdef HAS_SUPERLU_MT
   if (!slu) {
-- 
2.43.0


From e6b6e3315bcbd14676cd845413c6eadda89795c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 032/114] fix: SparseMatrix::preAssemble left superseded matrix
 elements behind when compressing

---
 src/LinAlg/SparseMatrix.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 1eb99db..b92fbbb 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -1016,6 +1016,7 @@ bool SparseMatrix::optimiseCols (const std::vector<IntSet>& dofc)
   IA.front() = 0;
 
   editable = false;
+  elem.clear(); // Erase the editable matrix elements, if any
   A.resize(nnz); // Allocate the non-zero matrix element storage
 
   return true;
-- 
2.43.0


From 0fa8036cc31d4e39afd188328836adc6ec465ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 033/114] fix: ThreadGroups: Discard the previous partitioning
 when a new one is established

Otherwise, the elements of the previous groups were retained and thus
processed twice, or instead of the elements that were asked for.
---
 src/Utility/ThreadGroups.C | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Utility/ThreadGroups.C b/src/Utility/ThreadGroups.C
index 79de268..5d22c48 100644
--- a/src/Utility/ThreadGroups.C
+++ b/src/Utility/ThreadGroups.C
@@ -56,7 +56,7 @@ void ThreadGroups::oneGroup (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneGroup(nel);
   else {
-    tg[0].resize(1, elms.front() >= 0 ? elms : IntVec{});
+    tg[0].assign(1, elms.front() >= 0 ? elms : IntVec{});
     tg[1].resize(0);
   }
 }
@@ -67,7 +67,7 @@ void ThreadGroups::oneStripe (size_t nel)
   tg[0].resize(nel);
   tg[1].resize(0);
   for (size_t iel = 0; iel < nel; iel++)
-    tg[0][iel].resize(1,iel);
+    tg[0][iel].assign(1,iel);
 }
 
 
@@ -76,11 +76,12 @@ void ThreadGroups::oneStripe (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneStripe(nel);
   else {
+    tg[0].clear();
     tg[0].resize(elms.size());
     tg[1].resize(0);
     if (elms.front() >= 0)
       for (size_t iel = 0; iel < elms.size(); ++iel)
-        tg[0][iel].resize(1,elms[iel]);
+        tg[0][iel].assign(1,elms[iel]);
   }
 }
 
@@ -163,7 +164,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec());
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -233,7 +234,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec());
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -330,7 +331,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec());
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -403,7 +404,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int nel3, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec());
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
-- 
2.43.0


From 0a595455296031a5ef4e7e5a4b314a784c7d190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 034/114] fix: A failing element was forgotten if another
 thread succeeded after it

---
 src/ASM/ASMs2DLag.C | 5 ++++-
 src/ASM/ASMu2DLag.C | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ASM/ASMs2DLag.C b/src/ASM/ASMs2DLag.C
index 7013cf3..494ad73 100644
--- a/src/ASM/ASMs2DLag.C
+++ b/src/ASM/ASMs2DLag.C
@@ -492,8 +492,11 @@ bool ASMs2DLag::integrate (Integrand& integrand,
 #pragma omp parallel for schedule(static)
     for (const IntVec& group : groups[g])
       for (int iel : group)
-        if (!(ok = this->integrateElm(integrand,glInt,iel,cache,time)))
+        if (!this->integrateElm(integrand,glInt,iel,cache,time))
+        {
+          ok = false;
           break;
+        }
 
   if (ASM::cachePolicy == ASM::PRE_CACHE)
     cache.clear();
diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index dac16eb..bc4047a 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -528,8 +528,8 @@ bool ASMu2DLag::integrate (Integrand& integrand,
   for (size_t t = 0; t < group.size() && ok; t++)
 #pragma omp parallel for schedule(static)
     for (int iel : group[t])
-      if (ok)
-        ok = this->integrateElm(integrand,glInt,iel,cache,time);
+      if (ok && !this->integrateElm(integrand,glInt,iel,cache,time))
+        ok = false;
 
   if (ASM::cachePolicy == ASM::PRE_CACHE)
     cache.clear();
-- 
2.43.0


From ae5b0ba0c836208307c035bfa6cc95bb45c3ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 035/114] fix: ASMu2DLag: Assemble sequentially when
 multi-threading is deactivated

All elements in one color means that they all are processed concurrently.
---
 src/ASM/ASMu2DLag.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index bc4047a..525dca6 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -374,6 +374,8 @@ void ASMu2DLag::generateThreadGroups (const Integrand&, bool silence,
 #ifdef USE_OPENMP
   if (omp_get_max_threads() > 1 && threadGroups.stripDir != ThreadGroups::NONE)
     this->generateThreadGroupsMultiColored(silence, separateGroup1noded);
+  else if (omp_get_max_threads() > 1)
+    threadGroups.oneStripe(nel); // Threading deactivated, one color per element
   else
 #endif
     threadGroups.oneGroup(nel); // No threading, all elements in one group
-- 
2.43.0


From 37e39b25f6f056090a43cf73ca4adc38221258dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 036/114] fix: ASMu2DLag: Single-noded elements with a common
 node need different colors

---
 src/ASM/ASMu2DLag.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index 525dca6..5c1d80d 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -408,9 +408,11 @@ void ASMu2DLag::generateThreadGroupsMultiColored (bool silence,
         }
 
   size_t fixedElements = 0;
+  IntSet singleNodes; // nodes of the elements in the separate color
   for (size_t iel = 0; iel < nel; iel++)
     if (separateGroup1noded && MNPC[iel].size() == 1 &&
-        slaveNodes.find(MNPC[iel].front()) == slaveNodes.end())
+        slaveNodes.find(MNPC[iel].front()) == slaveNodes.end() &&
+        singleNodes.insert(MNPC[iel].front()).second)
     {
       // Separate color for all single-noded elements
       status[iel] = 1; // whose element node is not a slave
-- 
2.43.0


From 8d607bc88917cc169984dcbe61edb24733a16837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:57 +0000
Subject: [PATCH 037/114] fix: The convergence monitoring was shared between
 all solvers in the process

The tolerance, the previous norm and the divergence counter of the
equilibrium iterations were function-static variables, such that two
solvers that iterate in turn (solveIteration) used each other's values.
---
 src/SIM/MultiStepSIM.C | 2 ++
 src/SIM/MultiStepSIM.h | 5 +++++
 src/SIM/NewmarkSIM.C   | 4 ----
 src/SIM/NonLinSIM.C    | 4 ----
 4 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index 3888a8d..e7874ca 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -32,6 +32,8 @@ MultiStepSIM::MultiStepSIM (SIMbase& sim)
   refNopt = MAX;
   refNorm = 0.0;
   rCond   = -1.0;
+  convTol = prevNorm = 0.0;
+  nIncrease = 0;
   subiter = NONE;
   nRHSvec = 1;
   rotUpd  = false;
diff --git a/src/SIM/MultiStepSIM.h b/src/SIM/MultiStepSIM.h
index 6c83dfd..9764e0a 100644
--- a/src/SIM/MultiStepSIM.h
+++ b/src/SIM/MultiStepSIM.h
@@ -209,6 +209,11 @@ protected:
   NormOp refNopt; //!< Reference norm option
   double refNorm; //!< Reference norm value used in convergence checks
   double rCond;   //!< Reciprocal condition number of the linear equation system
+
+  double convTol;   //!< Convergence tolerance of current time/load step
+  double prevNorm;  //!< Convergence norm value in the previous iteration
+  int    nIncrease; //!< Number of successive iterations with increasing norm
+
   SubIt  subiter; //!< Sub-iteration flag
   size_t nRHSvec; //!< Number of right-hand-side vectors to assemble
   char   rotUpd;  //!< Option for how to update of nodal rotations
diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 073e802..79d1b0e 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -543,10 +543,6 @@ SIM::ConvStatus NewmarkSIM::solveIteration (TimeStep& param)
 
 SIM::ConvStatus NewmarkSIM::checkConvergence (TimeStep& param)
 {
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   double norms[3];
   model.iterationNorms(linsol,residual,norms[0],norms[1],norms[2]);
   double norm = norms[cNorm];
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 4df8f3c..722fda8 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -413,10 +413,6 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
   if (iteNorm <= NONE)
     return CONVERGED; // No iterations, we are solving a linear problem
 
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   ConvStatus status = OK;
   double enorm, resNorm, linsolNorm;
   model.iterationNorms(linsol,residual,enorm,resNorm,linsolNorm);
-- 
2.43.0


From 5b11aa931b97cd302330c05665fed7c84cc42606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:57 +0000
Subject: [PATCH 038/114] fix: The reference norm was lost when the absolute
 tolerance was in effect

The reference norm was replaced by 1.0 when the absolute tolerance applied,
and by infinity when a step diverged in the first iteration. The subsequent
steps then accepted residuals far beyond both tolerances.
---
 src/SIM/MultiStepSIM.C |  1 +
 src/SIM/MultiStepSIM.h |  1 +
 src/SIM/NewmarkSIM.C   | 12 +++++++-----
 src/SIM/NonLinSIM.C    | 14 ++++++++------
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index e7874ca..acdb5f0 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -32,6 +32,7 @@ MultiStepSIM::MultiStepSIM (SIMbase& sim)
   refNopt = MAX;
   refNorm = 0.0;
   rCond   = -1.0;
+  normScale = 1.0;
   convTol = prevNorm = 0.0;
   nIncrease = 0;
   subiter = NONE;
diff --git a/src/SIM/MultiStepSIM.h b/src/SIM/MultiStepSIM.h
index 9764e0a..84b8986 100644
--- a/src/SIM/MultiStepSIM.h
+++ b/src/SIM/MultiStepSIM.h
@@ -210,6 +210,7 @@ protected:
   double refNorm; //!< Reference norm value used in convergence checks
   double rCond;   //!< Reciprocal condition number of the linear equation system
 
+  double normScale; //!< Scaling factor for the convergence norms
   double convTol;   //!< Convergence tolerance of current time/load step
   double prevNorm;  //!< Convergence norm value in the previous iteration
   int    nIncrease; //!< Number of successive iterations with increasing norm
diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 79d1b0e..7dc149c 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -552,25 +552,27 @@ SIM::ConvStatus NewmarkSIM::checkConvergence (TimeStep& param)
     if (norms[2] == 0.0)
       return SIM::CONVERGED; // No load on this step
 
-    if ((subiter&FIRST && refNopt == ALL) || fabs(norm) > refNorm)
+    if (!std::isfinite(norm))
+      ; // Something is wrong, don't let it ruin the reference norm
+    else if ((subiter&FIRST && refNopt == ALL) || fabs(norm) > refNorm)
       refNorm = fabs(norm);
 
     if (refNorm*rTol > aTol)
     {
       convTol = rTol;
-      norm /= refNorm;
+      normScale = refNorm;
     }
     else
     {
       convTol = aTol;
-      refNorm = 1.0;
+      normScale = 1.0;
     }
 
-    prevNorm = norm;
+    prevNorm = (norm /= normScale);
     nIncrease = 0;
   }
   else
-    norm /= refNorm;
+    norm /= normScale;
 
   if (msgLevel > 0)
   {
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 722fda8..6816777 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -424,23 +424,25 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
     if (linsolNorm == 0.0)
       return CONVERGED; // No load on this step
 
-    if ((subiter&FIRST && refNopt == ALL) || fabs(norm) > refNorm)
+    if (!std::isfinite(norm))
+      ; // Something is wrong, don't let it ruin the reference norm
+    else if ((subiter&FIRST && refNopt == ALL) || fabs(norm) > refNorm)
       refNorm = fabs(norm);
 
     if (refNorm*rTol > aTol) {
       convTol = rTol;
-      prevNorm = (norm /= refNorm);
+      normScale = refNorm;
     }
     else {
       convTol = aTol;
-      refNorm = 1.0;
-      prevNorm = norm;
+      normScale = 1.0;
     }
 
+    prevNorm = (norm /= normScale);
     nIncrease = 0;
   }
   else
-    norm /= refNorm;
+    norm /= normScale;
 
   // Check for slow convergence
   if (param.iter > 1 && prevNorm > 0.0 && fabs(norm) > prevNorm*0.1)
@@ -465,7 +467,7 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
 
     // Find and print out the worst DOF(s) when detecting slow convergence
     if (status == SLOW && prnSlow > 0)
-      this->printWorst(cout,convTol*refNorm);
+      this->printWorst(cout,convTol*normScale);
 
     cout.flags(oldFlags);
     cout.precision(oldPrec);
-- 
2.43.0


From 563cbf49b4c62d81095e5568e53e040e297571ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:57 +0000
Subject: [PATCH 039/114] fix: NonLinSIM: The line search produced NaN when the
 residual was zero

---
 src/SIM/NonLinSIM.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 6816777..9f7bacd 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -347,6 +347,12 @@ bool NonLinSIM::lineSearch (TimeStep& param)
   model.setMode(SIM::RHS_ONLY,false);
 
   double s0 = residual.dot(linsol);
+  if (s0 == 0.0)
+  {
+    alpha = alphaO = 1.0;
+    return true; // Nothing to search for, and it would only yield NaN
+  }
+
   double smin = fabs(s0);
   double cmin = 1.0;
   double ck = 1.0;
-- 
2.43.0


From ee58388b18d503007bd47421d984e2208838ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:57 +0000
Subject: [PATCH 040/114] fix: HHTSIM: Wrong velocity and acceleration when no
 iterations are needed

The predicted velocity and acceleration were not adjusted by the values of
the previous step when the convergence was reached without iterations.
---
 src/SIM/HHTSIM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 8f53ba4..2a1fe37 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -208,7 +208,7 @@ bool HHTSIM::correctStep (TimeStep& param, bool converged)
   const unsigned short int iV = 1;
   const unsigned short int iA = 2;
 
-  if (param.iter == 1 && !converged)
+  if (param.iter == (converged ? 0 : 1))
   {
     // V_n = v_n^1 = v_{n-1} - V_n
     // A_n = a_n^1 = a_{n-1} - A_n
-- 
2.43.0


From 57c6c3aa8ad0f7a014c71a906c380955fb414fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:57 +0000
Subject: [PATCH 041/114] fix: NewmarkNLSIM, HHTSIM: Could not restart from
 their own restart data

The inertia and external force vectors are stored only if calculated, but
the restoring failed without them. The reference norm was not stored.
---
 src/SIM/HHTSIM.C       | 27 +++++++++++++++++----------
 src/SIM/NewmarkNLSIM.C | 17 +++++++++++------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 2a1fe37..e74411e 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -281,7 +281,7 @@ void HHTSIM::setSolution (const RealArray& newSol, int idx)
 
 bool HHTSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->NewmarkSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -298,20 +298,27 @@ bool HHTSIM::serialize (SerializeMap& data) const
 
 bool HHTSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->NewmarkSIM::deSerialize(data))
     return false;
 
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
+  delete Finert;
+  delete Fext;
+  Finert = Fext = nullptr;
 
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  // Note: The force vectors are stored only if they have been calculated
+  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  if (sit != data.end())
+  {
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
   sit = data.find("HHT::Fext");
-  if (sit == data.end()) return false;
-
-  Fext = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  if (sit != data.end())
+  {
+    Fext = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  }
 
   return true;
 }
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index a8a395b..bb1be46 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -238,7 +238,7 @@ void NewmarkNLSIM::setSolution (const RealArray& newSol, int idx)
 
 bool NewmarkNLSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->NewmarkSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -251,14 +251,19 @@ bool NewmarkNLSIM::serialize (SerializeMap& data) const
 
 bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->NewmarkSIM::deSerialize(data))
     return false;
 
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
+  delete Finert;
+  Finert = nullptr;
 
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  // Note: The inertia force vector is stored only if it is used
+  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  if (sit != data.end())
+  {
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
   return true;
 }
-- 
2.43.0


From 86ce3da7c9e44f337fed81cef91bf6451fdede59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 042/114] fix: DenseMatrix: Solving again after a failed
 factorization succeeded with a garbage solution

---
 src/LinAlg/DenseMatrix.C | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 6d3d0f8..0ab025a 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -223,6 +223,7 @@ bool DenseMatrix::load (const char* fileName, bool binary)
   else if (flag == 2)
   {
     ipiv = new int[1];
+    ipiv[0] = 1;
     symm = true;
   }
   else
@@ -539,7 +540,13 @@ bool DenseMatrix::solve (Real* B, size_t nrhs, Real* rcond)
   const char* dsolv = symm ? "DGESV" : "DPOSV";
 #ifdef HAS_BLAS
   int info = 0;
-  if (symm)
+  if (ipiv && ipiv[0] < 1)
+  {
+    std::cerr <<" *** DenseMatrix::solve: The factorization of this matrix has"
+              <<" failed previously."<< std::endl;
+    return false;
+  }
+  else if (symm)
   {
     // Matrix is marked as symmetric - use Cholesky instead of full LU
     if (ipiv)
@@ -548,6 +555,7 @@ bool DenseMatrix::solve (Real* B, size_t nrhs, Real* rcond)
     {
       ipiv = new int[1]; // dummy allocation to flag factorization reuse
       dposv_('U',n,nrhs,myMat.ptr(),n,B,n,info);
+      ipiv[0] = info == 0 ? 1 : 0; // zero flags a failed factorization
     }
   }
   else if (ipiv)
@@ -559,6 +567,8 @@ bool DenseMatrix::solve (Real* B, size_t nrhs, Real* rcond)
       anorm = dlange_('1',n,n,myMat.ptr(),n,rcond);
     ipiv = new int[n];
     dgesv_(n,nrhs,myMat.ptr(),n,ipiv,B,n,info);
+    if (info != 0)
+      ipiv[0] = 0; // zero flags a failed factorization
     if (rcond && info == 0)
     {
       // Estimate the condition number
-- 
2.43.0


From d30ff829b561c74a7afe9575479c3abea0d0e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:32 +0000
Subject: [PATCH 043/114] fix: HHT: Element-level external load was counted
 twice in the actual inertia force

---
 src/ASM/HHTMats.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/HHTMats.C b/src/ASM/HHTMats.C
index 46a4c5c..27bd448 100644
--- a/src/ASM/HHTMats.C
+++ b/src/ASM/HHTMats.C
@@ -96,7 +96,7 @@ const Vector& HHTMats::getRHSVector () const
     // Find the actual inertia force from the dynamic equilibrium equation
     // (Fia = Fext - Fs - Fd) and store it in the second RHS vector Fia=b[1]
     Fia = b.front(); // Fia = -Fs
-    if (b.size() > 2)
+    if (b.size() > 2 && oldHHT) // the new predictor adds Fext,n-1 later on
       Fia.add(b[2]); // Fia = Fext - Fs
     if (alpha1 > 0.0 && haveMass)
       Fia.add(A[1]*vel,-alpha1); // Fia -= alpha1*M*v
-- 
2.43.0


From ed36b5aedf8ea4b7b5cc6cf54509b661470fad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 044/114] fix: No coefficient matrix was assembled after a
 restart with constant matrices

---
 src/SIM/MultiStepSIM.C | 3 +++
 src/SIM/MultiStepSIM.h | 1 +
 src/SIM/NewmarkSIM.C   | 6 ++++--
 src/SIM/NonLinSIM.C    | 3 ++-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index acdb5f0..03e26ca 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -38,6 +38,7 @@ MultiStepSIM::MultiStepSIM (SIMbase& sim)
   subiter = NONE;
   nRHSvec = 1;
   rotUpd  = false;
+  restarted = false;
   saveBCs = true;
 
   geoBlk = nBlock = lastSt = 0;
@@ -231,6 +232,8 @@ bool MultiStepSIM::deSerialize (const SerializeMap& data)
   if (sit != data.end())
     SIMsolution::deSerialize(sit->second,&refNorm,1);
 
+  restarted = true; // the coefficient matrices must be assembled again
+
   return this->restoreSolution(data,model.getName());
 }
 
diff --git a/src/SIM/MultiStepSIM.h b/src/SIM/MultiStepSIM.h
index 84b8986..7e71afa 100644
--- a/src/SIM/MultiStepSIM.h
+++ b/src/SIM/MultiStepSIM.h
@@ -218,6 +218,7 @@ protected:
   SubIt  subiter; //!< Sub-iteration flag
   size_t nRHSvec; //!< Number of right-hand-side vectors to assemble
   char   rotUpd;  //!< Option for how to update of nodal rotations
+  bool   restarted; //!< If \e true, the solution state was just restored
 
   int geoBlk; //!< Running VTF geometry block counter
   int nBlock; //!< Running VTF result block counter
diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 7dc149c..a0cb719 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -401,11 +401,12 @@ SIM::ConvStatus NewmarkSIM::solveStep (TimeStep& param, SIM::SolutionMode,
   if (subiter&FIRST && !this->predictStep(param))
     return SIM::FAILURE;
 
-  bool newTangent = (param.time.first || nupdat > 0) && !read_factor;
+  bool firstLHS = param.time.first || restarted;
+  bool newTangent = (firstLHS || nupdat > 0) && !read_factor;
   if (!model.setMode(newTangent ? SIM::DYNAMIC : SIM::RHS_ONLY, false))
     return SIM::FAILURE;
 
-  if (param.time.first && read_factor)
+  if (firstLHS && read_factor)
   {
     PROFILE1("Read factorized Nmat");
     IFEM::cout <<"   * Reading factorized Newton matrix from file "
@@ -419,6 +420,7 @@ SIM::ConvStatus NewmarkSIM::solveStep (TimeStep& param, SIM::SolutionMode,
   if (!model.assembleSystem(param.time,solution,newTangent))
     return SIM::FAILURE;
 
+  restarted = false;
   this->finalizeRHSvector(!param.time.first);
 
   if (!model.extractLoadVec(residual))
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 9f7bacd..2efe9bf 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -229,12 +229,13 @@ SIM::ConvStatus NonLinSIM::solveStep (TimeStep& param,
     return FAILURE;
 
   bool poorConvg = false;
-  bool newTangent = param.time.first || iteNorm != NONE;
+  bool newTangent = param.time.first || restarted || iteNorm != NONE;
   model.setMode(newTangent ? mode : RHS_ONLY, false);
   model.setQuadratureRule(opt.nGauss[0],true);
   if (!this->assembleSystem(param.time,solution,newTangent))
     return model.getProblem()->diverged() ? DIVERGED : FAILURE;
 
+  restarted = false;
   if (iteNorm > NONE)
   {
     if (!model.extractLoadVec(residual))
-- 
2.43.0


From c498da1c6371fdc8f1014d0969314620f6c87109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 045/114] fix: HDF5Restart::writeData silently kept the data of
 an earlier run with the same time level

---
 src/Utility/HDF5Restart.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index d41a9d0..61943b1 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -57,8 +57,9 @@ bool HDF5Restart::writeData (const SerializeData& data)
 
   std::stringstream str;
   str << '/' << ++m_level;
-  if (!checkGroupExistence(m_file,str.str().c_str()))
-    H5Gclose(H5Gcreate2(m_file,str.str().c_str(),0,H5P_DEFAULT,H5P_DEFAULT));
+  if (checkGroupExistence(m_file,str.str().c_str()))
+    H5Ldelete(m_file,str.str().c_str(),H5P_DEFAULT); // left from earlier run
+  H5Gclose(H5Gcreate2(m_file,str.str().c_str(),0,H5P_DEFAULT,H5P_DEFAULT));
 
 #ifdef HAVE_MPI
   int pid  = m_adm.getProcId();
-- 
2.43.0


From df883eb429906f6532914bf007150a46ac27f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 046/114] fix: HDF5Restart::readData lost empty data sets,
 leaked memory and left the file open

---
 src/Utility/HDF5Restart.C | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index 61943b1..5c09331 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -147,13 +147,14 @@ static herr_t read_restart_data (hid_t group_id, const char* name, void* data)
   hid_t setId = H5Dopen2(group_id,name,H5P_DEFAULT);
   if (setId < 0) return setId; // Result set not found
   hsize_t siz = H5Dget_storage_size(setId);
-  if (siz < 1) return 0; // Empty result set
-  char* cdata = new char[siz];
-  H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,cdata);
+  std::string& cdata = ctx->first[name];
+  cdata.resize(siz);
+  herr_t status = 0;
+  if (siz > 0) // Check for empty result set
+    status = H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&cdata[0]);
   H5Dclose(setId);
-  ctx->first[name] = std::string(cdata,siz);
 
-  return 0;
+  return status < 0 ? status : 0;
 }
 #endif
 
@@ -189,6 +190,7 @@ int HDF5Restart::readData (SerializeData& data, int level, bool basis)
   int idx = 0;
   read_restart_ctx ctx(data,basis);
   int it = H5Giterate(m_file, str.str().c_str(), &idx, read_restart_data, &ctx);
+  this->closeFile();
   return it < 0 ? it : level;
 #else
   std::cout <<"HDF5Writer: Compiled without HDF5 support, no data read."<< std::endl;
-- 
2.43.0


From 53682d6f07829aab4ebe75acebe6c0b89fa6bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 047/114] fix: HDF5Writer::writeVector lost real-valued
 vectors, as they were written to an invalid group

---
 src/Utility/HDF5Writer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index fa495fa..c21cd5f 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -199,7 +199,7 @@ void HDF5Writer::writeVector(int level, const DataEntry& entry)
   if (entry.second.field == DataExporter::VECTOR) {
     Vector* dvec = (Vector*)entry.second.data;
     int len = rank == 0 ? dvec->size() : 0;
-    this->writeArray(level,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
+    this->writeArray(group,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
   }
   else if (entry.second.field == DataExporter::INTVECTOR) {
     std::vector<int>* ivec = (std::vector<int>*)entry.second.data;
-- 
2.43.0


From 0152a89799908084c85bc8e958f51139234472b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 048/114] fix: HDF5Writer wrote knot span and nodal force
 fields also when they were disabled

---
 src/Utility/HDF5Writer.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index c21cd5f..34affe3 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -538,6 +538,9 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
 void HDF5Writer::writeKnotspan (int level, const DataEntry& entry,
                                 const std::string& prefix)
 {
+  if (!entry.second.enabled || entry.second.data2.empty())
+    return;
+
   const SIMbase* sim = static_cast<const SIMbase*>(entry.second.data);
   const Vector* sol = static_cast<const Vector*>(entry.second.data2.front());
   if (!sim || !sol) return;
@@ -698,6 +701,9 @@ bool HDF5Writer::writeTimeInfo (int level, double time)
 
 void HDF5Writer::writeNodalForces (int level, const DataEntry& entry)
 {
+  if (!entry.second.enabled || entry.second.data2.empty())
+    return;
+
 #ifdef HAS_HDF5
   std::string str = std::to_string(level) + "/nodal";
   this->addGroup(str);
-- 
2.43.0


From 1b044130fdc4e52e3031bf1de1940fe7cca4f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 049/114] fix: HDF5Writer used two different file names when
 the given name had an extension already

---
 src/Utility/HDF5Writer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 34affe3..0db6a14 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -36,7 +36,7 @@
 
 HDF5Writer::HDF5Writer (const std::string& name, const ProcessAdm& adm,
                         bool append)
-  : DataWriter(name,adm,".hdf5"), HDF5Base(name+".hdf5", adm)
+  : DataWriter(name,adm,".hdf5"), HDF5Base(m_name, adm)
 {
 #ifdef HAS_HDF5
   struct stat temp;
-- 
2.43.0


From 0994c64babf23c124e89290824914f72d377d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 050/114] fix: DataExporter: A registered field without value
 was undefined, or left an incomplete time level and an open file behind

---
 src/Utility/DataExporter.C | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index c42747a..d7f7581 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -61,6 +61,7 @@ bool DataExporter::registerField (const std::string& name,
   FileEntry entry;
   entry.description = description;
   entry.field = field;
+  entry.data = nullptr;
   entry.results = results;
   entry.prefix = prefix;
   if (!prefix.empty())
@@ -94,10 +95,15 @@ bool DataExporter::setFieldValue (const std::string& name,
 
 bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
 {
-  if (tp) {
-    if (tp->step > 0 && tp->step < std::max(0,m_last_step) + m_ndump)
-      return true; // write only every m_ndump step
+  if (tp && tp->step > 0 && tp->step < std::max(0,m_last_step) + m_ndump)
+    return true; // write only every m_ndump step
+
+  if (!m_writers.empty()) // avoid leaving an incomplete time level behind
+    for (const std::pair<const std::string,FileEntry>& it : m_entry)
+      if (!it.second.data)
+        return false;
 
+  if (tp) {
     if (m_last_step < 0)
       geoUpd = true; // always write geometry basis on first time level
 
@@ -124,8 +130,6 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
   for (DataWriter* writer : m_writers) {
     writer->openFile(m_level);
     for (const std::pair<const std::string,DataExporter::FileEntry>& it : m_entry) {
-      if (!it.second.data)
-        return false;
       switch (it.second.field) {
         case INTVECTOR:
         case VECTOR:
-- 
2.43.0


From 716a5af7f73eb65a7ed050524c0c7baeec6d3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 051/114] fix: HDF5Reader crashed on a missing text, overran
 the array for mistyped data and left data sets open

---
 src/Utility/HDF5Reader.C | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/Utility/HDF5Reader.C b/src/Utility/HDF5Reader.C
index 9d3b634..d1b14ef 100644
--- a/src/Utility/HDF5Reader.C
+++ b/src/Utility/HDF5Reader.C
@@ -43,14 +43,19 @@ static bool hdf5Read(hid_t file, hid_t type,
                      const std::string& path, std::vector<T>& vec)
 {
   hid_t set = H5Dopen2(file,path.c_str(),H5P_DEFAULT);
-  hsize_t size = H5Dget_storage_size(set) / sizeof(T);
-  if (size != 0) {
+  if (set < 0)
+    return false;
+
+  hid_t space = H5Dget_space(set);
+  hssize_t size = H5Sget_simple_extent_npoints(space);
+  H5Sclose(space);
+  bool ok = size > 0;
+  if (ok) {
     vec.resize(size);
-    H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,&vec[0]);
-    H5Dclose(set);
-    return true;
+    ok = H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,&vec[0]) >= 0;
   }
-  return false;
+  H5Dclose(set);
+  return ok;
 }
 #endif
 
@@ -109,12 +114,16 @@ bool HDF5Reader::readString (const std::string& name, std::string& out)
     return false;
 
   hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  if (set < 0)
+    return false;
+
   hid_t space = H5Dget_space(set);
   hsize_t siz = H5Sget_simple_extent_npoints(space);
+  H5Sclose(space);
   out.resize(siz);
-  H5Dread(set,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&out[0]);
+  herr_t status = H5Dread(set,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&out[0]);
   H5Dclose(set);
-  return true;
+  return status >= 0;
 #else
   std::cerr << "HDF5Reader: compiled without HDF5 support, no data read" << std::endl;
   return false;
@@ -129,10 +138,15 @@ bool HDF5Reader::read3DArray (const std::string& name, Matrix3D& out)
     return false;
 
   hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  if (set < 0)
+    return false;
+
   hid_t space = H5Dget_space(set);
-  hsize_t dims = H5Sget_simple_extent_ndims(space);
+  int dims = H5Sget_simple_extent_ndims(space);
 
   if (dims != 3) {
+    H5Sclose(space);
+    H5Dclose(set);
     std::cerr << "HDF5Reader: Wrong dimension for field " << name << std::endl;
     return false;
   }
@@ -140,6 +154,7 @@ bool HDF5Reader::read3DArray (const std::string& name, Matrix3D& out)
   std::array<hsize_t, 3> ndim;
 
   H5Sget_simple_extent_dims(space, ndim.data(), nullptr);
+  H5Sclose(space);
 
   out.resize(ndim[0],ndim[1],ndim[2]);
 
-- 
2.43.0


From df0aa7000fbd873bd5554d5cb8d94dd1094bd4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 052/114] fix: HDF5Writer::getLastTimeLevel returned one more
 than the last level, such that appended data left a hole

---
 src/Utility/HDF5Writer.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 0db6a14..7c40d86 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -65,8 +65,8 @@ int HDF5Writer::getLastTimeLevel ()
 #endif
 
   if (hid_t fid = H5Fopen(m_name.c_str(),m_flag,acc_tpl); fid >= 0) {
-    for (bool ok = true; ok; result++)
-      ok = checkGroupExistence(fid, ("/" + std::to_string(result)).c_str());
+    while (checkGroupExistence(fid, ("/" + std::to_string(result)).c_str()))
+      ++result;
     H5Fclose(fid);
   }
   else
-- 
2.43.0


From f5f6e863fbf9f898d69dce726b14be9a1068b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:39 +0000
Subject: [PATCH 053/114] fix: HDF5Writer silently kept the old data when a
 field was written again at the same time level

---
 src/Utility/HDF5Writer.C | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 7c40d86..27870df 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -160,13 +160,12 @@ void HDF5Writer::writeArray(hid_t group, const std::string& name, int patch,
 #endif
   hid_t group1 = patch > -1 ? this->getGroup(name,group) : -1;
   hid_t space = H5Screate_simple(1,&siz,nullptr);
-  hid_t set;
-  if (patch > -1)
-    set = H5Dcreate2(group1, std::to_string(patch).c_str(), type, space,
-                     H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  else
-    set = H5Dcreate2(group, name.c_str(), type, space,
-                     H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+  hid_t parent = patch > -1 ? group1 : group;
+  std::string setName = patch > -1 ? std::to_string(patch) : name;
+  if (checkGroupExistence(parent, setName.c_str()))
+    H5Ldelete(parent, setName.c_str(), H5P_DEFAULT); // replace existing data
+  hid_t set = H5Dcreate2(parent, setName.c_str(), type, space,
+                         H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   if (len > 0) {
     hid_t file_space = H5Dget_space(set);
     siz = len;
-- 
2.43.0


From 4dd719b0cf9453472e9efb29354f61c9091a2fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 054/114] fix: SIMsolution::saveSolution kept the data already
 in the container, instead of the current solution

---
 src/SIM/SIMsolution.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMsolution.C b/src/SIM/SIMsolution.C
index e5f74e3..2fefd9e 100644
--- a/src/SIM/SIMsolution.C
+++ b/src/SIM/SIMsolution.C
@@ -50,7 +50,7 @@ bool SIMsolution::saveSolution (SerializeMap& data,
     for (const Vector& sol : this->getSolutions())
       archive(sol);
   }
-  data.insert({ name, str.str() });
+  data[name] = str.str();
   return true;
 #else
   return false;
-- 
2.43.0


From e858f4248a67a1292675b1646603bf88f97e23e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 055/114] fix: Restoring a solution from incomplete data ended
 in an uncaught exception

---
 src/SIM/HHTSIM.C       |  6 ++++--
 src/SIM/MultiStepSIM.C |  3 ++-
 src/SIM/NewmarkNLSIM.C |  3 ++-
 src/SIM/SIMsolution.C  | 25 ++++++++++++++++++++-----
 src/SIM/SIMsolution.h  |  3 ++-
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index e74411e..6483b27 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -310,14 +310,16 @@ bool HHTSIM::deSerialize (const SerializeMap& data)
   if (sit != data.end())
   {
     Finert = new StdVector(model.getNoEquations());
-    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+    if (!SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim()))
+      return false;
   }
 
   sit = data.find("HHT::Fext");
   if (sit != data.end())
   {
     Fext = new StdVector(model.getNoEquations());
-    SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+    if (!SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim()))
+      return false;
   }
 
   return true;
diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index 03e26ca..7338545 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -230,7 +230,8 @@ bool MultiStepSIM::deSerialize (const SerializeMap& data)
 {
   SerializeMap::const_iterator sit = data.find("MultiStepSIM::refNorm");
   if (sit != data.end())
-    SIMsolution::deSerialize(sit->second,&refNorm,1);
+    if (!SIMsolution::deSerialize(sit->second,&refNorm,1))
+      return false;
 
   restarted = true; // the coefficient matrices must be assembled again
 
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index bb1be46..eb56245 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -262,7 +262,8 @@ bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
   if (sit != data.end())
   {
     Finert = new StdVector(model.getNoEquations());
-    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+    if (!SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim()))
+      return false;
   }
 
   return true;
diff --git a/src/SIM/SIMsolution.C b/src/SIM/SIMsolution.C
index 2fefd9e..f0c3782 100644
--- a/src/SIM/SIMsolution.C
+++ b/src/SIM/SIMsolution.C
@@ -12,6 +12,7 @@
 //==============================================================================
 
 #include "SIMsolution.h"
+#include <iostream>
 #ifdef HAS_CEREAL
 #include <cereal/cereal.hpp>
 #include <cereal/archives/binary.hpp>
@@ -65,10 +66,20 @@ bool SIMsolution::restoreSolution (const SerializeMap& data,
   SerializeMap::const_iterator sit = data.find(name);
   if (sit != data.end())
   {
-    std::stringstream str(sit->second);
-    cereal::BinaryInputArchive archive(str);
-    for (Vector& sol : this->theSolutions())
-      archive(sol);
+    Vectors& solutions = this->theSolutions();
+    Vectors restored(solutions.size());
+    try {
+      std::stringstream str(sit->second);
+      cereal::BinaryInputArchive archive(str);
+      for (Vector& sol : restored)
+        archive(sol);
+    }
+    catch (const std::exception&) {
+      std::cerr <<" *** SIMsolution::restoreSolution: Incomplete data for \""
+                << name <<"\"."<< std::endl;
+      return false;
+    }
+    solutions.swap(restored);
     return true;
   }
 #endif
@@ -89,11 +100,15 @@ std::string SIMsolution::serialize (const double* v, size_t n)
 }
 
 
-void SIMsolution::deSerialize (const std::string& data, double* v, size_t n)
+bool SIMsolution::deSerialize (const std::string& data, double* v, size_t n)
 {
 #ifdef HAS_CEREAL
+  if (data.size() < n*sizeof(double))
+    return false;
+
   std::stringstream str(data);
   cereal::BinaryInputArchive archive(str);
   archive.loadBinary(v,n*sizeof(double));
 #endif
+  return true;
 }
diff --git a/src/SIM/SIMsolution.h b/src/SIM/SIMsolution.h
index b4d3cb2..fc3f8a3 100644
--- a/src/SIM/SIMsolution.h
+++ b/src/SIM/SIMsolution.h
@@ -61,7 +61,8 @@ protected:
   //! \param[in] data The serialized string
   //! \param[out] v Pointer to double array (assumed allocated outside)
   //! \param[in] n Length of array
-  static void deSerialize(const std::string& data, double* v, size_t n);
+  //! \return \e false if the string is too short, then \a v is not touched
+  static bool deSerialize(const std::string& data, double* v, size_t n);
 
 public:
   //! \brief Returns a const reference to the solution vectors.
-- 
2.43.0


From 6e8569818d39ad0eaa35e09936d8a9eaa8d660d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 056/114] fix: The reference norm and force vectors of several
 simulators overwrote each other in the restart data

---
 src/SIM/HHTSIM.C       | 16 ++++++++++------
 src/SIM/MultiStepSIM.C |  6 ++++--
 src/SIM/NewmarkNLSIM.C |  8 +++++---
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 6483b27..0508a38 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -285,12 +285,12 @@ bool HHTSIM::serialize (SerializeMap& data) const
     return false;
 
   if (Finert)
-    data["HHT::Finert"] = SIMsolution::serialize(Finert->getPtr(),
-                                                 Finert->dim());
+    data[model.getName()+" Finert"] =
+      SIMsolution::serialize(Finert->getPtr(),Finert->dim());
 
   if (Fext)
-    data["HHT::Fext"]   = SIMsolution::serialize(Fext->getPtr(),
-                                                 Fext->dim());
+    data[model.getName()+" Fext"] =
+      SIMsolution::serialize(Fext->getPtr(),Fext->dim());
 
   return true;
 }
@@ -306,7 +306,9 @@ bool HHTSIM::deSerialize (const SerializeMap& data)
   Finert = Fext = nullptr;
 
   // Note: The force vectors are stored only if they have been calculated
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  SerializeMap::const_iterator sit = data.find(model.getName()+" Finert");
+  if (sit == data.end()) // Not separate for each simulator in old restart files
+    sit = data.find("HHT::Finert");
   if (sit != data.end())
   {
     Finert = new StdVector(model.getNoEquations());
@@ -314,7 +316,9 @@ bool HHTSIM::deSerialize (const SerializeMap& data)
       return false;
   }
 
-  sit = data.find("HHT::Fext");
+  sit = data.find(model.getName()+" Fext");
+  if (sit == data.end())
+    sit = data.find("HHT::Fext");
   if (sit != data.end())
   {
     Fext = new StdVector(model.getNoEquations());
diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index 7338545..57302b9 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -220,7 +220,7 @@ bool MultiStepSIM::saveStep (int iStep, int& rBlock, const char* vecName)
 
 bool MultiStepSIM::serialize (SerializeMap& data) const
 {
-  data["MultiStepSIM::refNorm"] = SIMsolution::serialize(&refNorm,1);
+  data[model.getName()+" refNorm"] = SIMsolution::serialize(&refNorm,1);
 
   return this->saveSolution(data,model.getName());
 }
@@ -228,7 +228,9 @@ bool MultiStepSIM::serialize (SerializeMap& data) const
 
 bool MultiStepSIM::deSerialize (const SerializeMap& data)
 {
-  SerializeMap::const_iterator sit = data.find("MultiStepSIM::refNorm");
+  SerializeMap::const_iterator sit = data.find(model.getName()+" refNorm");
+  if (sit == data.end()) // Not separate for each simulator in old restart files
+    sit = data.find("MultiStepSIM::refNorm");
   if (sit != data.end())
     if (!SIMsolution::deSerialize(sit->second,&refNorm,1))
       return false;
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index eb56245..946816d 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -242,8 +242,8 @@ bool NewmarkNLSIM::serialize (SerializeMap& data) const
     return false;
 
   if (Finert)
-    data["HHT::Finert"] = SIMsolution::serialize(Finert->getPtr(),
-                                                 Finert->dim());
+    data[model.getName()+" Finert"] =
+      SIMsolution::serialize(Finert->getPtr(),Finert->dim());
 
   return true;
 }
@@ -258,7 +258,9 @@ bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
   Finert = nullptr;
 
   // Note: The inertia force vector is stored only if it is used
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  SerializeMap::const_iterator sit = data.find(model.getName()+" Finert");
+  if (sit == data.end()) // Not separate for each simulator in old restart files
+    sit = data.find("HHT::Finert");
   if (sit != data.end())
   {
     Finert = new StdVector(model.getNoEquations());
-- 
2.43.0


From 5eb9b56ad4cb515651074dfcd94435bf44823b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:01 +0000
Subject: [PATCH 057/114] fix: TimeStep: Incomplete restart data ended in an
 uncaught exception, and outdated data was kept when serializing

---
 src/SIM/TimeStep.C | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index c0ae238..b1fe868 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -358,7 +358,7 @@ bool TimeStep::serialize (std::map<std::string,std::string>& data) const
     cereal::BinaryOutputArchive ar(str);
     doSerializeOps(ar,*const_cast<TimeStep*>(this));
   }
-  data.insert(std::make_pair("TimeStep",str.str()));
+  data["TimeStep"] = str.str();
 
   // Save also the iteration counts and the local step counter, which affect
   // the size of the next increment and can not be derived from the step counter
@@ -371,7 +371,7 @@ bool TimeStep::serialize (std::map<std::string,std::string>& data) const
     ar(niter);
     ar(istep);
   }
-  data.insert(std::make_pair("TimeStep::local",local.str()));
+  data["TimeStep::local"] = local.str();
   return true;
 #else
   return false;
@@ -384,20 +384,26 @@ bool TimeStep::deSerialize (const std::map<std::string,std::string>& data)
 #ifdef HAS_CEREAL
   std::map<std::string,std::string>::const_iterator it = data.find("TimeStep");
   if (it != data.end()) {
-    std::stringstream str(it->second);
-    cereal::BinaryInputArchive ar(str);
-    doSerializeOps(ar,*this);
-
-    std::map<std::string,std::string>::const_iterator lit = data.find("TimeStep::local");
-    if (lit == data.end()) // Old restart file, replay the increments instead
-      return this->reset(step);
-
     int istep = 0;
-    std::stringstream local(lit->second);
-    cereal::BinaryInputArchive lar(local);
-    lar(iter);
-    lar(niter);
-    lar(istep);
+    std::map<std::string,std::string>::const_iterator lit = data.find("TimeStep::local");
+    try {
+      std::stringstream str(it->second);
+      cereal::BinaryInputArchive ar(str);
+      doSerializeOps(ar,*this);
+
+      if (lit == data.end()) // Old restart file, replay the increments instead
+        return this->reset(step);
+
+      std::stringstream local(lit->second);
+      cereal::BinaryInputArchive lar(local);
+      lar(iter);
+      lar(niter);
+      lar(istep);
+    }
+    catch (const std::exception&) {
+      std::cerr <<" *** TimeStep::deSerialize: Incomplete data."<< std::endl;
+      return false;
+    }
     lstep = istep;
 
     // Find the time segment of the next increment
-- 
2.43.0


From 85555fec112ce47877ac812549ec50483a52b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 058/114] fix: The time level of the results was stored one too
 low in restart states saved before the first results of a run

---
 Apps/Utils/SIMSolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMSolver.h b/Apps/Utils/SIMSolver.h
index dbe203c..53a1707 100644
--- a/Apps/Utils/SIMSolver.h
+++ b/Apps/Utils/SIMSolver.h
@@ -249,7 +249,8 @@ protected:
 
     HDF5Restart::SerializeData data;
     if (exportAdm)
-      data["TimeLevel"] = std::to_string(exportAdm->getTimeLevel());
+      data["TimeLevel"] = std::to_string(std::max(exportAdm->getTimeLevel(),
+                                                  SIMSolverStat<T1>::startExpLevel));
     return this->serialize(data) ? restartAdm->writeData(data) : true;
   }
 
-- 
2.43.0


From c00b15924d2a0e6c2b33aa96aed7cbac429ab74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 059/114] fix: SIMSolverTS: Restart states saved after a
 prediction cycle which refined the mesh, but not in its last iteration,
 referred to an outdated mesh

---
 Apps/Utils/SIMSolverTS.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Apps/Utils/SIMSolverTS.h b/Apps/Utils/SIMSolverTS.h
index e6c92cd..2005b7c 100644
--- a/Apps/Utils/SIMSolverTS.h
+++ b/Apps/Utils/SIMSolverTS.h
@@ -131,7 +131,10 @@ public:
 
       if (lastRef < 0)
         return 4; // Something went wrong, bailing
-      else if (refElms == 0 && !this->tp.finished() && !this->S1.stopped())
+      else if (refElms > 0 && SIMSolver<T1>::restartAdm)
+        lastRLev = SIMSolver<T1>::restartAdm->getTimeLevel()+1;
+
+      if (refElms == 0 && !this->tp.finished() && !this->S1.stopped())
         IFEM::cout <<"  No refinement, resume from current state"<< std::endl;
 
       if (lastRef == 0 && maxPred > 0)
@@ -150,11 +153,7 @@ public:
         this->tp = tranStep;
         IFEM::cout <<"\n  >>> Resuming simulation from time="<< this->tp.time.t;
         if (lastRef > 0)
-        {
           IFEM::cout <<" on the new mesh."<< std::endl;
-          if (SIMSolver<T1>::restartAdm)
-            lastRLev = SIMSolver<T1>::restartAdm->getTimeLevel()+1;
-        }
         else
         {
           IFEM::cout <<" on current mesh."<< std::endl;
-- 
2.43.0


From 48c81dd2fdd2d854f3d83c2650d1c3f43b190a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 060/114] fix: SIMinput::restartBasis ignored a refined mesh
 stored at the first restart level

---
 src/SIM/SIMinput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 0a2c6a1..a603b0c 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1897,7 +1897,7 @@ int SIMinput::restartBasis (const std::string& restartFile, int restartStep)
   HDF5Restart hdf(restartFile,dummyAdm);
   HDF5Restart::SerializeData data;
   restartStep = hdf.readData(data,restartStep,true);
-  if (restartStep == 0 || data.empty())
+  if (data.empty())
   {
     IFEM::cout <<"\n  ** SIMinput: No serialized basis yet,"
                <<" restarting on initial mesh.\n"<< std::endl;
-- 
2.43.0


From 695bbd1d682db80be055991fa7c135c9e1271861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:57 +0000
Subject: [PATCH 061/114] fix: Aitken relaxation must survive an unchanged
 residual

The relaxation weight became NaN when two subsequent residuals were
equal (e.g., both zero). Use the initial weight in that case, as when
it gets too small otherwise.
---
 Apps/Utils/SIMCoupledSI.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMCoupledSI.h b/Apps/Utils/SIMCoupledSI.h
index 4181616..a853f91 100644
--- a/Apps/Utils/SIMCoupledSI.h
+++ b/Apps/Utils/SIMCoupledSI.h
@@ -94,7 +94,8 @@ public:
           if (aitken) {
             Vector r1 = this->getAitkenResidual();
             r1 -= prevRes;
-            omega *= -prevRes.dot(r1) / r1.dot(r1);
+            double denom = r1.dot(r1);
+            omega *= denom > 0.0 ? -prevRes.dot(r1) / denom : 0.0;
             if (fabs(omega) < 1e-6) {
               std::cerr <<"\n  ** Relaxation weight "<< omega <<" too small,"
                         <<" resetting to default "<< omega0 << std::endl;
-- 
2.43.0


From 246aa9faf790a010fef4857666ae29a88ab12d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:57 +0000
Subject: [PATCH 062/114] fix: SIMSemi3D::saveStep must report failure to
 export a plane

---
 Apps/Utils/SIMSemi3D.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/SIMSemi3D.h b/Apps/Utils/SIMSemi3D.h
index ff4e8d3..f8121ca 100644
--- a/Apps/Utils/SIMSemi3D.h
+++ b/Apps/Utils/SIMSemi3D.h
@@ -161,12 +161,13 @@ public:
   //! \brief Dumps all registered fields for each plane.
   bool saveStep(const TimeStep& tp, int&)
   {
+    bool ok = true;
     for (size_t i = 0; i < plane_exporters.size(); i++)
-      plane_exporters[i]->dumpTimeLevel(&tp);
+      ok &= plane_exporters[i]->dumpTimeLevel(&tp);
 
     // Note: VTF export is not supported for the Semi3D simulators.
     // Instead this method is used for the HDF5 export.
-    return true;
+    return ok;
   }
 
   //! \brief Dummy method, no serialization support.
-- 
2.43.0


From a3cfac6ef922c6f3bcbebfa41f59c6a464a95d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 063/114] fix: loading must fail when an include file cannot be
 loaded

A missing or malformed include file was only reported, and the loading
continued without its contents, with the elements succeeding it inserted
at the wrong level if other files were included as well. An include file
without any elements resulted in a null pointer dereference.
---
 src/SIM/XMLInputBase.C | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/SIM/XMLInputBase.C b/src/SIM/XMLInputBase.C
index 4c0f791..9d80257 100644
--- a/src/SIM/XMLInputBase.C
+++ b/src/SIM/XMLInputBase.C
@@ -50,9 +50,12 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
   {
     if (std::string(elem.Value()) == "include") {
       tinyxml2::XMLDocument inc_doc(true, tinyxml2::COLLAPSE_WHITESPACE);
-        if (inc_doc.LoadFile(elem.GetText()) != tinyxml2::XML_SUCCESS) {
-          std::cerr << "** Error parsing include file " << elem.GetText() << std::endl;
-          return false;
+      const char* fileName = elem.GetText();
+      if (!fileName || !loadXMLfile(inc_doc,fileName)) {
+        std::cerr <<" *** Error parsing include file \""
+                  << (fileName ? fileName : "") <<"\"."<< std::endl;
+        include_failed = include_processed = true;
+        return false;
       }
       currElem->InsertEndChild(inc_doc.RootElement()->DeepClone(&new_doc));
       include_found = include_processed = true;
@@ -86,6 +89,7 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
   tinyxml2::XMLDocument new_doc; //!< New document
   tinyxml2::XMLElement* currElem = nullptr; //!< Current root element
   bool include_found = false; //!< True if an include tag was found
+  bool include_failed = false; //!< True if an include file could not be loaded
 
 private:
   bool include_processed = false; //!< True if an include tag was processed
@@ -113,7 +117,9 @@ XMLInputBase::loadFile (tinyxml2::XMLDocument& doc,
     for (size_t i = 0; i < 10; ++i) { // Maximum 10 levels of include files
       IncludeInjector v;
       doc.RootElement()->Accept(&v);
-      if (v.include_found)
+      if (v.include_failed)
+        return nullptr;
+      else if (v.include_found)
         v.new_doc.DeepCopy(&doc);
       else
         break;
-- 
2.43.0


From 9499dff0a1ffcc926be55e08e8a3c3397a1a1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 064/114] fix: loading must fail when the include files are
 nested too deeply

With more than 10 levels of include files (e.g., a file that includes
itself), the remaining contents was silently ignored.
---
 src/SIM/XMLInputBase.C | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/SIM/XMLInputBase.C b/src/SIM/XMLInputBase.C
index 9d80257..0cef696 100644
--- a/src/SIM/XMLInputBase.C
+++ b/src/SIM/XMLInputBase.C
@@ -114,15 +114,19 @@ XMLInputBase::loadFile (tinyxml2::XMLDocument& doc,
     IFEM::cout <<"\nParsing input file "<< fileName << std::endl;
 
   if (tag) {
-    for (size_t i = 0; i < 10; ++i) { // Maximum 10 levels of include files
+    for (size_t i = 0; true; ++i) { // Maximum 10 levels of include files
       IncludeInjector v;
       doc.RootElement()->Accept(&v);
       if (v.include_failed)
         return nullptr;
-      else if (v.include_found)
-        v.new_doc.DeepCopy(&doc);
-      else
+      else if (!v.include_found)
         break;
+      else if (i == 10) {
+        std::cerr <<" *** Too many levels of include files in \""
+                  << fileName <<"\"."<< std::endl;
+        return nullptr;
+      }
+      v.new_doc.DeepCopy(&doc);
     }
     tag = doc.RootElement();
   }
-- 
2.43.0


From a983004aee4ac4b7dd054fb8015a2a5edb193a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:24 +0000
Subject: [PATCH 065/114] fix: keep all text of an element when expanding
 include files

Text succeeding a sub-element was lost in all elements of an input file
as soon as the file included another one.
---
 src/SIM/XMLInputBase.C | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SIM/XMLInputBase.C b/src/SIM/XMLInputBase.C
index 0cef696..98818a5 100644
--- a/src/SIM/XMLInputBase.C
+++ b/src/SIM/XMLInputBase.C
@@ -59,10 +59,9 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
       }
       currElem->InsertEndChild(inc_doc.RootElement()->DeepClone(&new_doc));
       include_found = include_processed = true;
+      return false; // the file name is not part of the contents
     } else {
       tinyxml2::XMLElement* e = new_doc.NewElement(elem.Name());
-      if (elem.GetText())
-        e->SetText(elem.GetText());
       if (!currElem)
         new_doc.InsertEndChild(e);
       else
@@ -77,6 +76,14 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
     return true;
   }
 
+  //! \brief Copy the text of an element.
+  bool Visit(const tinyxml2::XMLText& text) override
+  {
+    if (currElem)
+      currElem->InsertEndChild(text.ShallowClone(&new_doc));
+    return true;
+  }
+
   //! brief Set element to insert into to the parent.
   bool VisitExit(const tinyxml2::XMLElement& elem) override
   {
-- 
2.43.0


From b477e39080a04b867f853dac71c28d4bdbdf75ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:24 +0000
Subject: [PATCH 066/114] fix: only the extension should be removed from output
 file names

The part of a file path succeeding a dot in a directory name was lost,
and leading dots on the command-line, such that e.g. -hdf5 ../res.hdf5
resulted in the file /res.hdf5.
---
 src/SIM/SIMoptions.C | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/SIM/SIMoptions.C b/src/SIM/SIMoptions.C
index 38938ff..c0debf3 100644
--- a/src/SIM/SIMoptions.C
+++ b/src/SIM/SIMoptions.C
@@ -26,11 +26,18 @@
 #endif
 #include <cstring>
 #include <cstdlib>
+#include <filesystem>
 #include <fstream>
 #include <functional>
 
 namespace eig { extern bool verbose; }
 
+//! \brief Helper removing the extension (if any) of a file name.
+static std::string stripExtension (const char* fileName)
+{
+  return std::filesystem::path(fileName).replace_extension().string();
+}
+
 
 SIMoptions::SIMoptions ()
 {
@@ -163,11 +170,8 @@ bool SIMoptions::parseOutputTag (const tinyxml2::XMLElement* elem)
       else if (!strcasecmp(elem->FirstChild()->Value(),"binary"))
         format = 1;
     }
-    if (utl::getAttribute(elem,"file",vtf)) {
-      size_t pos = vtf.find_last_of('.');
-      if (pos < vtf.size())
-        vtf.erase(pos);
-    }
+    if (utl::getAttribute(elem,"file",vtf))
+      vtf = stripExtension(vtf.c_str());
     if (utl::getAttribute(elem,"nviz",nViz[0]))
       nViz[2] = nViz[1] = nViz[0];
     utl::getAttribute(elem,"nu",nViz[0]);
@@ -185,12 +189,8 @@ bool SIMoptions::parseOutputTag (const tinyxml2::XMLElement* elem)
     restartInc = atoi(value);
 
   else if (!strcasecmp(elem->Value(),"hdf5")) {
-    if (elem->FirstChild()) {
-      hdf5 = elem->FirstChild()->Value();
-      size_t pos = hdf5.find_last_of('.');
-      if (pos < hdf5.size())
-        hdf5.erase(pos);
-    }
+    if (elem->FirstChild())
+      hdf5 = stripExtension(elem->FirstChild()->Value());
     else // use the default output file name
       hdf5 = "(default)";
   }
@@ -342,20 +342,20 @@ bool SIMoptions::parseOldOptions (int argc, char** argv, int& i)
   else if (!strcmp(argv[i],"-hdf5"))
   {
     if (i < argc-1 && argv[i+1][0] != '-')
-      hdf5 = strtok(argv[++i],".");
+      hdf5 = stripExtension(argv[++i]);
     else // use the default output file name
       hdf5 = "(default)";
   }
   else if (!strcmp(argv[i],"-vtffile"))
   {
     if (i < argc-1 && argv[i+1][0] != '-')
-      vtf = strtok(argv[++i],".");
+      vtf = stripExtension(argv[++i]);
   }
   else if (!strcmp(argv[i],"-saveInc") && i < argc-1)
     dtSave = atof(argv[++i]);
   else if (!strcmp(argv[i],"-restart") && i < argc-1)
   {
-    restartFile = strtok(argv[++i],".");
+    restartFile = stripExtension(argv[++i]);
     if (i+1 < argc && argv[i+1][0] != '-')
       restartStep = atoi(argv[++i]);
   }
-- 
2.43.0


From 4be4d8617ba9ec31a8e6c834ce69b633ecf65525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:24 +0000
Subject: [PATCH 067/114] fix: a command-line discretization option must apply
 to the geometry

The command-line options were not restored until the whole input file
was read, so the patches were created using the discretization of the
input file.
---
 src/SIM/SIMinput.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index a603b0c..f86da75 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -982,6 +982,10 @@ bool SIMinput::parse (const tinyxml2::XMLElement* elem)
     else if (!strcasecmp(elem->Value(),"discretization"))
       result &= opt.parseDiscretizationTag(child);
 
+  // Let command-line options override the discretization before it is used
+  if (!strcasecmp(elem->Value(),"discretization"))
+    IFEM::applyCommandLineOptions(opt);
+
   return result;
 }
 
-- 
2.43.0


From 8823bb7770c29a9b26d297c5e5a803d996f66d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 068/114] fix: AdaptiveSetup must not truncate the refinement
 percentage to an integer

---
 src/SIM/AdaptiveSetup.C | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index f9bf431..14e2384 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -296,8 +296,10 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
     return 0; // Condition number limit reached
   }
 
+  const double refBeta = betaFunc ? (*betaFunc)(iStep-1) : beta;
+
   prm.options.reserve(8);
-  prm.options.push_back(betaFunc ? (*betaFunc)(iStep-1) : beta);
+  prm.options.push_back(refBeta);
   prm.options.push_back(knot_mult);
   prm.options.push_back(scheme);
   prm.options.push_back(linIndep);
@@ -386,10 +388,10 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
   // The variable prm.elements will contain one of the following:
   // - list of elements to be refined (if fullspan or minspan)
   // - list of basis functions to be refined (if structured mesh)
-  const ErrorInfo info = errorLimits(error, prm.options[0], threshold);
+  const ErrorInfo info = errorLimits(error, refBeta, threshold);
 
   if (threshold == NONE || threshold == SYMMETRIZED)
-    refineSize = ceil(error.size()*prm.options[0]/100.0);
+    refineSize = ceil(error.size()*refBeta/100.0);
   else
     refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,0),
                                   std::greater_equal<DblIdx>()) - error.begin();
@@ -426,22 +428,22 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
 
   switch (threshold) {
   case NONE:
-    IFEM::cout << prm.options[0] <<"% of all "<< str;
+    IFEM::cout << refBeta <<"% of all "<< str;
     break;
   case SYMMETRIZED:
     IFEM::cout << 100.0*refineSize/error.size() <<"% of all "<< str;
     break;
   case MAXIMUM:
-    IFEM::cout << prm.options[0] <<"% of max error ("<< info.limit <<")";
+    IFEM::cout << refBeta <<"% of max error ("<< info.limit <<")";
     break;
   case AVERAGE:
-    IFEM::cout << prm.options[0] <<"% of average error ("<< info.limit <<")";
+    IFEM::cout << refBeta <<"% of average error ("<< info.limit <<")";
     break;
   case MINIMUM:
-    IFEM::cout << prm.options[0] <<"% of min error ("<< info.limit <<")";
+    IFEM::cout << refBeta <<"% of min error ("<< info.limit <<")";
     break;
   case DORFEL:
-    IFEM::cout << prm.options[0] <<"% of total error ("<< info.limit <<")";
+    IFEM::cout << refBeta <<"% of total error ("<< info.limit <<")";
     break;
   default:
     break;
-- 
2.43.0


From 415815fb08df380f618490054ec4e4a712b21fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 069/114] fix: AdaptiveSetup must also refine element 0 when
 its error equals the limit

---
 src/SIM/AdaptiveSetup.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index 14e2384..93408fb 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -393,7 +393,7 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
   if (threshold == NONE || threshold == SYMMETRIZED)
     refineSize = ceil(error.size()*refBeta/100.0);
   else
-    refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,0),
+    refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,-1),
                                   std::greater_equal<DblIdx>()) - error.begin();
 
   if (threshold == SYMMETRIZED)
-- 
2.43.0


From f563aca9b2616fa3e64573820f6b65a1a8684230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 070/114] fix: AdaptiveSetup must not access errors beyond the
 element range

---
 src/SIM/AdaptiveSetup.C | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index 93408fb..8e91b97 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -381,6 +381,9 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
       error.push_back(DblIdx(refIn(1+i),i));
   }
 
+  if (error.empty())
+    return 0; // Nothing to refine
+
   // Sort the elements in the sequence of decreasing errors
   std::sort(error.begin(),error.end(),std::greater<DblIdx>());
 
@@ -396,6 +399,11 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
     refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,-1),
                                   std::greater_equal<DblIdx>()) - error.begin();
 
+  if (refineSize > error.size())
+    refineSize = error.size();
+  else if (refineSize < 1)
+    return 0; // No elements with errors above the limit
+
   if (threshold == SYMMETRIZED)
   {
     double fErr = error[refineSize-1].first;
-- 
2.43.0


From a1a7f342cfa9debb79ae1fe99e1451c18bcd354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 071/114] fix: SIMSolverAdap must not export from relocated
 solution vectors

---
 Apps/Utils/SIMSolverAdap.h | 23 +++++++++++++++--------
 src/SIM/AdaptiveSIM.C      |  1 +
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/Apps/Utils/SIMSolverAdap.h b/Apps/Utils/SIMSolverAdap.h
index 8c7c1d1..5f34c4b 100644
--- a/Apps/Utils/SIMSolverAdap.h
+++ b/Apps/Utils/SIMSolverAdap.h
@@ -115,19 +115,26 @@ public:
     if (!aSim.initAdaptor())
       return 1;
 
-    if (SIMSolverStat<T1>::exporter)
-      SIMSolverStat<T1>::exporter->setFieldValue(exporterName, &this->S1,
-                                                 &aSim.getSolution(),
-                                                 &aSim.getProjections(),
-                                                 &aSim.getEnorm());
-
+    this->S1.setSol(&aSim.getSolution());
     for (int iStep = 1; aSim.adaptMesh(iStep); iStep++)
+    {
       if (!aSim.solveStep(infile,iStep))
         return 1;
-      else if (!aSim.writeGlv(infile,iStep))
+
+      // Notice: The solution vectors may have been relocated in memory
+      this->S1.setSol(&aSim.getSolution());
+      if (!aSim.writeGlv(infile,iStep))
         return 2;
-      else if (SIMSolverStat<T1>::exporter)
+
+      if (SIMSolverStat<T1>::exporter)
+      {
+        SIMSolverStat<T1>::exporter->setFieldValue(exporterName, &this->S1,
+                                                   &aSim.getSolution(),
+                                                   &aSim.getProjections(),
+                                                   &aSim.getEnorm());
         SIMSolverStat<T1>::exporter->dumpTimeLevel(nullptr,true);
+      }
+    }
 
     return 0;
   }
diff --git a/src/SIM/AdaptiveSIM.C b/src/SIM/AdaptiveSIM.C
index 9890b3b..0304e4e 100644
--- a/src/SIM/AdaptiveSIM.C
+++ b/src/SIM/AdaptiveSIM.C
@@ -49,6 +49,7 @@ bool AdaptiveSIM::initAdaptor (size_t normGroup)
   if (!this->initPrm(normGroup))
     return false;
 
+  solution.resize(model.getNoRHS());
   projs.resize(opt.project.size());
   if (model.haveDualSol())
     projd.resize(opt.project.size());
-- 
2.43.0


From d866709965b606b42fd698f9dfb2dec7726dd3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 072/114] fix: SIMSolverAdap must report failure to export the
 results

---
 Apps/Utils/SIMSolverAdap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMSolverAdap.h b/Apps/Utils/SIMSolverAdap.h
index 5f34c4b..45396b9 100644
--- a/Apps/Utils/SIMSolverAdap.h
+++ b/Apps/Utils/SIMSolverAdap.h
@@ -132,7 +132,8 @@ public:
                                                    &aSim.getSolution(),
                                                    &aSim.getProjections(),
                                                    &aSim.getEnorm());
-        SIMSolverStat<T1>::exporter->dumpTimeLevel(nullptr,true);
+        if (!SIMSolverStat<T1>::exporter->dumpTimeLevel(nullptr,true))
+          return 3;
       }
     }
 
-- 
2.43.0


From f9633633b677909b028794ba12fd515db895336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:51 +0000
Subject: [PATCH 073/114] fix: SIMSolverAdap must report failure to refine the
 mesh

---
 Apps/Utils/SIMSolverAdap.h | 2 +-
 src/SIM/AdaptiveSIM.C      | 8 ++++++--
 src/SIM/AdaptiveSIM.h      | 5 +++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/Apps/Utils/SIMSolverAdap.h b/Apps/Utils/SIMSolverAdap.h
index 45396b9..0c1bee7 100644
--- a/Apps/Utils/SIMSolverAdap.h
+++ b/Apps/Utils/SIMSolverAdap.h
@@ -137,7 +137,7 @@ public:
       }
     }
 
-    return 0;
+    return aSim.adaptFailed() ? 4 : 0;
   }
 
   //! \brief Set name of data exporter registration to use.
diff --git a/src/SIM/AdaptiveSIM.C b/src/SIM/AdaptiveSIM.C
index 0304e4e..e968b3e 100644
--- a/src/SIM/AdaptiveSIM.C
+++ b/src/SIM/AdaptiveSIM.C
@@ -22,6 +22,7 @@ AdaptiveSIM::AdaptiveSIM (SIMoutput& sim, bool sa)
   : SIMadmin(sim), AdaptiveSetup(sim,sa)
 {
   geoBlk = nBlock = 0;
+  failed = false;
   solution.resize(1);
 }
 
@@ -212,11 +213,14 @@ bool AdaptiveSIM::adaptMesh (int iStep, Vectors& sol, std::streamsize outPrec)
   // Set up refinement parameters
   LR::RefineData prm;
   Vector refIn = fNorm.empty() ? eNorm.getRow(eRow) : fNorm.getRow(2);
-  if (this->calcRefinement(prm,iStep,gNorm,refIn) <= 0)
+  int nRefine = this->calcRefinement(prm,iStep,gNorm,refIn);
+  failed = nRefine < 0;
+  if (nRefine <= 0)
     return false;
 
   // Now refine the mesh and write out resulting grid
-  return model.refine(prm,sol) && this->writeMesh(iStep);
+  failed = !model.refine(prm,sol) || !this->writeMesh(iStep);
+  return !failed;
 }
 
 
diff --git a/src/SIM/AdaptiveSIM.h b/src/SIM/AdaptiveSIM.h
index 333c90b..aa472d6 100644
--- a/src/SIM/AdaptiveSIM.h
+++ b/src/SIM/AdaptiveSIM.h
@@ -55,6 +55,9 @@ public:
   //! \param[in] outPrec Number of digits after the decimal point in norm print
   bool adaptMesh(int iStep, Vectors& sol, std::streamsize outPrec = 0);
 
+  //! \brief Returns \e true if the last call to adaptMesh() failed.
+  bool adaptFailed() const { return failed; }
+
   //! \brief Writes current mesh and results to the VTF-file.
   //! \param[in] infile File name used to construct the VTF-file name from
   //! \param[in] iStep  Refinement step counter
@@ -104,6 +107,8 @@ private:
   int geoBlk; //!< Running VTF geometry block counter
   int nBlock; //!< Running VTF result block counter
 
+  bool failed; //!< If \e true, the last mesh adaptation failed
+
 protected:
   Vectors solution; //!< All solutions (including Galerkin projections)
 };
-- 
2.43.0


From 980bec9d14db5876f529a41ac4c5a41baceb5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 074/114] fix: AdaptiveSIM must project the dual solution for
 all norm groups

---
 src/SIM/AdaptiveSIM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/AdaptiveSIM.C b/src/SIM/AdaptiveSIM.C
index e968b3e..1487d97 100644
--- a/src/SIM/AdaptiveSIM.C
+++ b/src/SIM/AdaptiveSIM.C
@@ -141,7 +141,7 @@ bool AdaptiveSIM::solveStep (const char* inputfile, int iStep, bool withRF,
       continue; // No projection for this norm group
     else if (!model.project(projs[idx],solution.front(),pit->first))
       return failure();
-    else if (1+idx == adaptor && idx < projd.size() && solution.size() > 1)
+    else if (adaptor > 0 && idx < projd.size() && solution.size() > 1)
       if (!model.project(projd[idx],solution[1],pit->first))
         return failure();
 
-- 
2.43.0


From 8f09c0604440834bbc62bad6549f0f0cdd25a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 075/114] fix: blank lines in the files of piece-wise linear
 functions must be ignored

---
 src/Utility/Functions.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 4b681df..f188f58 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -178,7 +178,7 @@ LinearFunc::LinearFunc (const char* file, int c, Real s) : scale(s)
     if (temp[0] == '#') continue;
     std::stringstream str(temp);
     Real x, v;
-    str >> x >> v;
+    if (!(str >> x >> v)) continue; // ignore blank and incomplete lines
     if (c < 2)
       std::swap(x,v);
     else for (int i = 2; i < c; i++)
@@ -298,7 +298,7 @@ LinVecFunc::LinVecFunc (const char* file, int c)
     std::stringstream str(temp);
     Real x;
     Vec3 v;
-    str >> x;
+    if (!(str >> x)) continue; // ignore blank lines
     for (int i = 2; i < c; i++) str >> v.x;
     str >> v;
     if (fvals.empty() || fvals.back().first <= x)
-- 
2.43.0


From 93bbcc19f2479dafd6dd09fbe58f2c7095074ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 076/114] fix: LinearFunc::isZero must recognise zero function
 values

---
 src/Utility/Functions.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index f188f58..ce50854 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -229,11 +229,14 @@ size_t LinearFunc::locate (Real x) const
 
 bool LinearFunc::isZero () const
 {
+  if (scale <= zTol && scale >= -zTol)
+    return true;
+
   for (const Point& v : fvals)
     if (v.second > zTol || v.second < -zTol)
       return false;
 
-  return scale <= zTol && scale >= -zTol;
+  return !fvals.empty();
 }
 
 
-- 
2.43.0


From a5b6d8b2c24cbf0f7fbbec5de7ca9c9972d61cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 077/114] fix: Dirac and step functions are not
 time-independent

---
 src/Utility/Functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utility/Functions.h b/src/Utility/Functions.h
index 4cd22ca..49b51d5 100644
--- a/src/Utility/Functions.h
+++ b/src/Utility/Functions.h
@@ -156,6 +156,8 @@ public:
 
   //! \brief Returns whether the function is identically zero or not.
   bool isZero() const override { return amp == Real(0); }
+  //! \brief Returns whether the function is time-independent or not.
+  bool isConstant() const override { return this->isZero(); }
 
 protected:
   //! \brief Evaluates the function at \a x.
@@ -178,6 +180,8 @@ public:
 
   //! \brief Returns whether the function is identically zero or not.
   bool isZero() const override { return amp == Real(0); }
+  //! \brief Returns whether the function is time-independent or not.
+  bool isConstant() const override { return this->isZero(); }
 
 protected:
   //! \brief Evaluates the function at \a x.
-- 
2.43.0


From 38f6443e4f7dd27813f695adbf56574947e3cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 078/114] fix: SpaceTimeFunc::deriv must include the
 time-derivative of the space function

---
 src/Utility/Functions.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index ce50854..c6bc32e 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -430,7 +430,10 @@ Real SpaceTimeFunc::deriv (const Vec3& X, int dir) const
   if (dir < 4)
     return sfunc->deriv(X,dir) * (*tfunc)(Xt ? Xt->t : Real(0));
   else
-    return (*sfunc)(X) * tfunc->deriv(Xt ? Xt->t : Real(0));
+  {
+    Real t = Xt ? Xt->t : Real(0);
+    return (*sfunc)(X) * tfunc->deriv(t) + sfunc->deriv(X,dir) * (*tfunc)(t);
+  }
 }
 
 
-- 
2.43.0


From b6562cab58c6f8d9f4cf3a4fcd9ed1862293aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 079/114] fix: SpaceTimeFunc is not time-independent when its
 space function is not

---
 src/Utility/Functions.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Functions.h b/src/Utility/Functions.h
index 49b51d5..dd39466 100644
--- a/src/Utility/Functions.h
+++ b/src/Utility/Functions.h
@@ -287,7 +287,10 @@ public:
   //! \brief Returns whether the function is identically zero or not.
   bool isZero() const override { return sfunc->isZero() || tfunc->isZero(); }
   //! \brief Returns whether the function is time-independent or not.
-  bool isConstant() const override { return tfunc->isConstant(); }
+  bool isConstant() const override
+  {
+    return sfunc->isConstant() && tfunc->isConstant();
+  }
 
   //! \brief Returns first-derivative of the function.
   Real deriv(const Vec3& X, int dir) const override;
-- 
2.43.0


From 6e498f5ccbe17e6d7ad74dee5197360544b3ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 080/114] fix: RampFunc must be constant when it has no ramp

---
 src/Utility/Functions.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index c6bc32e..f222bb5 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -367,13 +367,13 @@ Vec3 LinVecFunc::evaluate (const Real& x) const
 
 Real RampFunc::evaluate (const Real& x) const
 {
-  return x < xmax ? fval*x/xmax : fval;
+  return x < xmax && xmax > Real(0) ? fval*x/xmax : fval;
 }
 
 
 Real RampFunc::deriv (Real x) const
 {
-  return x < xmax ? fval/xmax : Real(0);
+  return x < xmax && xmax > Real(0) ? fval/xmax : Real(0);
 }
 
 
-- 
2.43.0


From c39b2e63d7fc5e68e610d11a9c006830185965f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 081/114] fix: the amplitude of a parsed Interpolate1D function
 was ignored

---
 src/Utility/Functions.C | 4 ++--
 src/Utility/Functions.h | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index f222bb5..eebc305 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -805,10 +805,10 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
           double time = atof(t);
           if (print)
             IFEM::cout <<")*Ramp("<< time;
-          f = new Interpolate1D(cline,dir,col,time);
+          f = new Interpolate1D(cline,dir,col,time,A);
         }
         else
-          f = new Interpolate1D(cline,dir,col);
+          f = new Interpolate1D(cline,dir,col,Real(0),A);
         if (print)
           IFEM::cout <<")";
       }
diff --git a/src/Utility/Functions.h b/src/Utility/Functions.h
index dd39466..35e7168 100644
--- a/src/Utility/Functions.h
+++ b/src/Utility/Functions.h
@@ -623,8 +623,10 @@ public:
   //! \param[in] dir_ Coordinate direction of the spatial variation
   //! \param[in] col Which column of the file to read function values from
   //! \param[in] ramp Ramp-up time
-  Interpolate1D(const char* file, int dir_, int col = 2, Real ramp = Real(0))
-    : lfunc(file,col), dir(dir_), time(ramp) {}
+  //! \param[in] s Scaling factor
+  Interpolate1D(const char* file, int dir_, int col = 2, Real ramp = Real(0),
+                Real s = Real(1))
+    : lfunc(file,col,s), dir(dir_), time(ramp) {}
 
   //! \brief Constructor initializing the function parameters from two lists.
   //! \param[in] xVal List of function argument values
-- 
2.43.0


From 82f0abe6fddb3df897c9e4778da5e945b874527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 082/114] fix: the amplitude was lost for parsed functions with
 a time expression

---
 src/Utility/Functions.C | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index eebc305..7ee46f5 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -877,7 +877,16 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
 
   if (print)
     IFEM::cout <<" * ";
-  const ScalarFunc* s = parseFunction(cline,nullptr,C,print,false);
+  const ScalarFunc* s = nullptr;
+  if (strncasecmp(cline,"expr",4) == 0)
+  {
+    // The amplitude is not a part of the expression
+    if (!f && C != Real(1))
+      f = new ConstFunc(C);
+    s = parseFunction(cline,nullptr,Real(1.0e-8),print,false);
+  }
+  else
+    s = parseFunction(cline,nullptr,C,print,false);
 
   if (f)
     return new SpaceTimeFunc(f,s);
-- 
2.43.0


From d1bfb44ae3a7f7a8e6f95ca16d411013d7d0245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 083/114] fix: parseRealFunc must not use an invalid time
 function

---
 src/Utility/Functions.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 7ee46f5..bec47e5 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -888,7 +888,12 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
   else
     s = parseFunction(cline,nullptr,C,print,false);
 
-  if (f)
+  if (!s) // invalid time function
+  {
+    delete f;
+    return nullptr;
+  }
+  else if (f)
     return new SpaceTimeFunc(f,s);
   else
     return new ConstTimeFunc(s);
-- 
2.43.0


From 5f1d2c5ed0c4dbe76896a99a261fea6696176a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 084/114] fix: the variables were added twice to derivatives of
 expression functions

---
 src/Utility/ExprFunctions.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index 2dcf923..124a3c9 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -618,7 +618,7 @@ void EvalFunctions<Scalar>::addDerivative (const std::string& functions,
 {
   std::vector<std::string> components = splitComps(functions,variables);
   for (size_t i = 0; i < p.size() && i < components.size(); i++)
-    p[i]->addDerivative(components[i],variables,d1,d2);
+    p[i]->addDerivative(components[i],"",d1,d2); // variables are included
 }
 
 
-- 
2.43.0


From 6077eb9d5f9f0675f2509478a7c0433c306c1bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 085/114] fix: subdomains when there are more of them than fit

The size of the last subdomain in a direction was the (unsigned)
difference between the number of elements and its start. When the
preceding subdomains already cover all the elements and end beyond the
last one, the difference wrapped around, and reserving that many elements
threw an exception. The last subdomain is now empty in that case.
---
 src/ASM/DomainDecomposition.C | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index 8e2735c..a69b7c6 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -352,7 +352,7 @@ DomainDecomposition::calcSubdomains1D (size_t nel1, size_t g1, size_t overlap)
     size_t ofs1 = 0;
     for (size_t gu = 0; gu < g1; ++gu) {
       if (gu == g1 - 1)
-        nel1_sub = nel1 - ofs1;
+        nel1_sub = nel1 > ofs1 ? nel1 - ofs1 : 0;
       subdomains[gu].reserve(nel1_sub);
       for (size_t i = 0; i < nel1_sub && ofs1 + i < nel1; ++i)
         subdomains[gu].push_back(ofs1 + i);
@@ -384,12 +384,12 @@ DomainDecomposition::calcSubdomains2D (size_t nel1, size_t nel2,
     size_t ofs2 = 0;
     for (size_t gv = 0; gv < g2; ++gv) {
       if (gv == g2 - 1)
-        nel2_sub = nel2 - ofs2;
+        nel2_sub = nel2 > ofs2 ? nel2 - ofs2 : 0;
       size_t nel1_sub = floor(double(nel1)/g1 + 1);
       size_t ofs1 = 0;
       for (size_t gu = 0; gu < g1; ++gu, ++g) {
         if (gu == g1 - 1)
-          nel1_sub = nel1-ofs1;
+          nel1_sub = nel1 > ofs1 ? nel1 - ofs1 : 0;
 
         subdomains[g].reserve(nel1_sub*nel2_sub);
         for (size_t j = 0; j < nel2_sub && ofs2 + j < nel2; ++j)
@@ -426,17 +426,17 @@ DomainDecomposition::calcSubdomains3D (size_t nel1, size_t nel2, size_t nel3,
     size_t nel3_sub = floor(double(nel3)/g3+1);
     for (size_t gw = 0; gw < g3; ++gw) {
       if (gw == g3 - 1)
-        nel3_sub = nel3-ofs3;
+        nel3_sub = nel3 > ofs3 ? nel3 - ofs3 : 0;
       size_t ofs2 = 0;
       size_t nel2_sub = floor(double(nel2)/g2+1);
       for (size_t gv = 0; gv < g2; ++gv) {
         if (gv == g2 - 1)
-          nel2_sub = nel2-ofs2;
+          nel2_sub = nel2 > ofs2 ? nel2 - ofs2 : 0;
         size_t ofs1 = 0;
         size_t nel1_sub = floor(double(nel1)/g1+1);
         for (size_t gu = 0; gu < g1; ++gu, ++g) {
           if (gu == g1 - 1)
-            nel1_sub = nel1-ofs1;
+            nel1_sub = nel1 > ofs1 ? nel1 - ofs1 : 0;
           subdomains[g].reserve(nel1_sub*nel2_sub*nel3_sub);
           for (size_t k = 0; k < nel3_sub && ofs3 + k < nel3; ++k)
             for (size_t j = 0; j < nel2_sub && ofs2 + j < nel2; ++j)
-- 
2.43.0


From fa887a2601cdf2d81578847a7d741fca2dd3c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 086/114] fix: subdomains with an overlap larger than their
 size

The start of the next subdomain wrapped around when the overlap was
larger than the size of the subdomain, such that all subdomains but the
first were empty and most of the elements in none of them.
---
 src/ASM/DomainDecomposition.C | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index a69b7c6..aa97b8b 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -356,7 +356,7 @@ DomainDecomposition::calcSubdomains1D (size_t nel1, size_t g1, size_t overlap)
       subdomains[gu].reserve(nel1_sub);
       for (size_t i = 0; i < nel1_sub && ofs1 + i < nel1; ++i)
         subdomains[gu].push_back(ofs1 + i);
-      ofs1 += nel1_sub - overlap;
+      ofs1 += nel1_sub > overlap ? nel1_sub - overlap : 0;
     }
   }
 
@@ -395,9 +395,9 @@ DomainDecomposition::calcSubdomains2D (size_t nel1, size_t nel2,
         for (size_t j = 0; j < nel2_sub && ofs2 + j < nel2; ++j)
           for (size_t i = 0; i < nel1_sub && ofs1 + i < nel1; ++i)
             subdomains[g].push_back((ofs2+j)*nel1 + ofs1 + i);
-        ofs1 += nel1_sub - overlap;
+        ofs1 += nel1_sub > overlap ? nel1_sub - overlap : 0;
       }
-      ofs2 += nel2_sub - overlap;
+      ofs2 += nel2_sub > overlap ? nel2_sub - overlap : 0;
     }
   }
 
@@ -442,11 +442,11 @@ DomainDecomposition::calcSubdomains3D (size_t nel1, size_t nel2, size_t nel3,
             for (size_t j = 0; j < nel2_sub && ofs2 + j < nel2; ++j)
               for (size_t i = 0; i < nel1_sub && ofs1 + i < nel1; ++i)
                 subdomains[g].push_back((ofs3 + k)*nel1*nel2 + (ofs2+j)*nel1 + ofs1 + i);
-          ofs1 += nel1_sub - overlap;
+          ofs1 += nel1_sub > overlap ? nel1_sub - overlap : 0;
         }
-        ofs2 += nel2_sub - overlap;
+        ofs2 += nel2_sub > overlap ? nel2_sub - overlap : 0;
       }
-      ofs3 += nel3_sub - overlap;
+      ofs3 += nel3_sub > overlap ? nel3_sub - overlap : 0;
     }
   }
 
-- 
2.43.0


From d7e2d97fc3812c891de88201716bd1f4d94edb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 087/114] fix: matching of non-square faces with swapped
 directions

The orientations 4-7 swap the two face directions, so consecutive points
in the first direction of the slave face are the number of points in the
second direction (which is the first one on the master) apart. The
iterator used the number of points in the first direction, which yields
wrong and out-of-range indices unless the two are equal.
---
 src/ASM/DomainDecomposition.C | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index aa97b8b..1bc8c8b 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -95,10 +95,10 @@ OrientIterator::OrientIterator (const ASMbase* pch,
                                             PAIR((dim2-n-1)*dim1,     1),  // 6 7 8 3 4 5 0 1 2
                                             PAIR((n+1)*dim1-1,       -1),  // 2 1 0 5 4 3 8 7 6
                                             PAIR(dim1*dim2-n*dim1-1, -1),  // 8 7 6 5 4 3 2 1 0
-                                            PAIR(n,                dim1),  // 0 3 6 1 4 7 2 5 8
-                                            PAIR(dim2-n-1,         dim1),  // 2 5 8 1 4 7 0 3 6
-                                            PAIR((dim2-1)*dim1+n, -dim1),  // 6 3 0 7 4 1 8 5 2
-                                            PAIR(dim2*dim1-n-1,   -dim1)}; // 8 5 2 7 4 1 6 3 0
+                                            PAIR(n,                dim2),  // 0 3 6 1 4 7 2 5 8
+                                            PAIR(dim2-n-1,         dim2),  // 2 5 8 1 4 7 0 3 6
+                                            PAIR((dim1-1)*dim2+n, -dim2),  // 6 3 0 7 4 1 8 5 2
+                                            PAIR(dim2*dim1-n-1,   -dim2)}; // 8 5 2 7 4 1 6 3 0
 #undef PAIR
 
     auto it = nodes.begin();
@@ -154,10 +154,10 @@ OrientIterator::OrientIterator (const ASMbase* pch, int orient, int lIdx)
                                             PAIR((dim2-n-1)*dim1,     1),  // 6 7 8 3 4 5 0 1 2
                                             PAIR((n+1)*dim1-1,       -1),  // 2 1 0 5 4 3 8 7 6
                                             PAIR(dim1*dim2-n*dim1-1, -1),  // 8 7 6 5 4 3 2 1 0
-                                            PAIR(n,                dim1),  // 0 3 6 1 4 7 2 5 8
-                                            PAIR(dim2-n-1,         dim1),  // 2 5 8 1 4 7 0 3 6
-                                            PAIR((dim2-1)*dim1+n, -dim1),  // 6 3 0 7 4 1 8 5 2
-                                            PAIR(dim2*dim1-n-1,   -dim1)}; // 8 5 2 7 4 1 6 3 0
+                                            PAIR(n,                dim2),  // 0 3 6 1 4 7 2 5 8
+                                            PAIR(dim2-n-1,         dim2),  // 2 5 8 1 4 7 0 3 6
+                                            PAIR((dim1-1)*dim2+n, -dim2),  // 6 3 0 7 4 1 8 5 2
+                                            PAIR(dim2*dim1-n-1,   -dim2)}; // 8 5 2 7 4 1 6 3 0
 #undef PAIR
 
     auto it = nodes.begin();
-- 
2.43.0


From b8b0268fef6399ee7a01b94b2d712870cd8ccb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 088/114] fix: ghost connections lost when two have the same
 order

Two interfaces of a slave patch towards different master patches on the
same process compare as equal when they are on the boundary with the same
index on their master, and so do two interfaces towards the same
boundary. Only the first one was kept. Order by the master patch
and the boundary index on the slave also.
---
 src/ASM/DomainDecomposition.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ASM/DomainDecomposition.h b/src/ASM/DomainDecomposition.h
index 7d9e6d8..93c4008 100644
--- a/src/ASM/DomainDecomposition.h
+++ b/src/ASM/DomainDecomposition.h
@@ -96,8 +96,15 @@ public:
         if (A.basis != B.basis)
           return A.basis < B.basis;
 
-        // finally by index on master
-        return A.midx < B.midx;
+        // then by index on master
+        if (A.midx != B.midx)
+          return A.midx < B.midx;
+
+        // finally by master id and index on slave
+        if (A.master != B.master)
+          return A.master < B.master;
+
+        return A.sidx < B.sidx;
       }
     protected:
       const DomainDecomposition& dd; //!< Domain decomposition holding patch owner data
-- 
2.43.0


From aca1b62ed195ebdf9aa3d052d65f7396f8e5d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 089/114] fix: element neighbors across faces with orientation
 5 and 6

The orientation iterator yields for each slave element in turn the index
of the matching master element, but was used the other way round here.
This makes a difference for the orientations which are not
their own inverse (and for swapped faces which are not square).
---
 src/SIM/SIMinput.C | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index f86da75..0a60e24 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1959,18 +1959,19 @@ IntMat SIMinput::getElmConnectivities () const
       DomainDecomposition::OrientIterator iter(myModel[iface.slave-1],
                                                iface.orient, iface.sidx);
 
-      IntVec::const_iterator m_node = mElms.begin();
-      for (int s_node : iter)
+      IntVec::const_iterator s_elm = sElms.begin();
+      for (int m_idx : iter)
       {
+        const int m_elm = mElms[m_idx];
         if (opt.discretization < ASM::LRSpline) {
-          neigh[sElms[s_node]][iface.sidx-1] = *m_node;
-          neigh[*m_node][iface.midx-1] = sElms[s_node];
+          neigh[*s_elm][iface.sidx-1] = m_elm;
+          neigh[m_elm][iface.midx-1] = *s_elm;
         }
         else {
-          neigh[sElms[s_node]].push_back(*m_node);
-          neigh[*m_node].push_back(sElms[s_node]);
+          neigh[*s_elm].push_back(m_elm);
+          neigh[m_elm].push_back(*s_elm);
         }
-        ++m_node;
+        ++s_elm;
       }
     }
 
-- 
2.43.0


From 9f7f33080b2032b27a1cf59de5e877df3c3883c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 090/114] fix: subdomains of equation blocks

The equations of the nodes on the basis of a block were looked up in the
block without checking that they are in it, which they are not when the
block has only some of the components. Blocks with more than one
basis got no equations at all, and the multipliers were left out.
Use exactly the equations which are in the block.
---
 src/ASM/DomainDecomposition.C | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index 1bc8c8b..2382875 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -297,18 +297,14 @@ DomainDecomposition::getSubdomains (int nx, int ny, int nz,
         } else {
           IntVec nodes;
           getSAM()->getElmNodes(nodes, it->getElmID(iEl+1));
-          int basis = blocks[block+1].basis;
+          const std::map<int,int>& G2LEQ = blocks[block+1].G2LEQ;
           for (const int node : nodes) {
-            char type = getSAM()->getNodeType(node);
-            if (type == (basis == 1 ? 'D' : 'P'+basis-2) || (type == ' ' && basis < 2)) {
-              IntVec eqns;
-              getSAM()->getNodeEqns(eqns, node);
-              for (int eqn : eqns) {
-                if (eqn > 0) {
-                  auto geq = blocks[block+1].G2LEQ.find(eqn);
-                  result[d].insert(geq->second);
-                }
-              }
+            IntVec eqns;
+            getSAM()->getNodeEqns(eqns, node);
+            for (int eqn : eqns) {
+              auto geq = G2LEQ.find(eqn);
+              if (geq != G2LEQ.end())
+                result[d].insert(geq->second);
             }
           }
         }
-- 
2.43.0


From 4c3712044796bceb49ae81eda188b379e39e9355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 091/114] fix: subdomains when a direction is not subdivided

A zero number of subdomains is allowed for when sizing the result, but
with a zero for one of the actual parameter directions no subdomains were
calculated and all of them were left empty.
---
 src/ASM/DomainDecomposition.C | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index 2382875..8e55dcd 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -272,7 +272,11 @@ std::vector<std::set<int>>
 DomainDecomposition::getSubdomains (int nx, int ny, int nz,
                                     int overlap, size_t block) const
 {
-  std::vector<IntSet> result(nx*(ny?ny:1)*(nz?nz:1)*getSAM()->getNoPatches());
+  // Unspecified subdivisions means one subdomain in that direction
+  nx = nx ? nx : 1;
+  ny = ny ? ny : 1;
+  nz = nz ? nz : 1;
+  std::vector<IntSet> result(nx*ny*nz*getSAM()->getNoPatches());
   size_t d = 0;
   for (const ASMbase* it : *getSAM()) {
     const ASMstruct* pch = dynamic_cast<const ASMstruct*>(it);
-- 
2.43.0


From 77ea824984349df5ac017c951eb15d973e53c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 092/114] fix: total number of equations in serial

It was set for the equation blocks only, and not for the whole system.
---
 src/ASM/DomainDecomposition.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index 8e55dcd..d362e93 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -701,7 +701,7 @@ bool DomainDecomposition::calcGlobalEqNumbers (const ProcessAdm& adm,
 {
   // defaults in serial and non-parallel runs with MPI enabled builds.
   blocks[0].minEq = 1;
-  blocks[0].maxEq = sim.getSAM()->getNoEquations();
+  blocks[0].maxEq = blocks[0].nGlbEqs = sim.getSAM()->getNoEquations();
   for (size_t i = 1; i < blocks.size(); ++i) {
     blocks[i].minEq = 1;
     blocks[i].maxEq = blocks[i].localEqs.size();
@@ -1321,7 +1321,7 @@ bool DomainDecomposition::setup (const ProcessAdm& adm,
 void DomainDecomposition::setup (const int neq)
 {
   blocks[0].minEq = 1;
-  blocks[0].maxEq = neq;
+  blocks[0].maxEq = blocks[0].nGlbEqs = neq;
 }
 
 
-- 
2.43.0


From c01dacfe70cb905008c6474512efae3a8cab64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 093/114] fix: ghost connections kept when the domain
 decomposition is cleared

The set was left with the connections of the previous model, ordered by
patch owners which are gone.
---
 src/ASM/DomainDecomposition.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index d362e93..5c2fa10 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -1439,6 +1439,7 @@ bool DomainDecomposition::graphPartition (const ProcessAdm& adm,
 
 void DomainDecomposition::clear ()
 {
+  ghostConnections.clear();
   patchOwner.clear();
   myElms.clear();
   blocks.clear();
-- 
2.43.0


From 1ce53b8d051af975dd11dc1a21019ae5c3a39873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 094/114] fix: report the actual dimension of ISTL matrices

---
 src/LinAlg/ISTLMatrix.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/LinAlg/ISTLMatrix.h b/src/LinAlg/ISTLMatrix.h
index c12264e..ab8c7ab 100644
--- a/src/LinAlg/ISTLMatrix.h
+++ b/src/LinAlg/ISTLMatrix.h
@@ -95,9 +95,6 @@ public:
   //! \brief Returns the matrix type.
   LinAlg::MatrixType getType() const override { return LinAlg::ISTL; }
 
-  //! \brief Returns the dimension of the system matrix.
-  size_t dim(int = 1) const override { return 0; }
-
   //! \brief Creates a copy of the system matrix and returns a pointer to it.
   SystemMatrix* copy() const override { return new ISTLMatrix(*this); }
 
-- 
2.43.0


From 506d348ab37caab1318ade71ea43ccedb03a1ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 095/114] fix: transfer the ISTL matrix when all coefficients
 are in place

---
 src/LinAlg/ISTLMatrix.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/ISTLMatrix.C b/src/LinAlg/ISTLMatrix.C
index a6d9da2..b4822df 100644
--- a/src/LinAlg/ISTLMatrix.C
+++ b/src/LinAlg/ISTLMatrix.C
@@ -149,11 +149,14 @@ void ISTLMatrix::initAssembly (const SAM& sam, char)
 
 bool ISTLMatrix::endAssembly()
 {
+  if (!this->SparseMatrix::endAssembly())
+    return false;
+
   for (size_t j = 0; j < cols(); ++j)
     for (int i = IA[j]; i < IA[j+1]; ++i)
       iA[JA[i]][j] = A[i];
 
-  return this->SparseMatrix::endAssembly();
+  return true;
 }
 
 
-- 
2.43.0


From c3c129222a2778fa87e98a542608035c6f2e0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 096/114] fix: do not keep the solver of the former matrix when
 an ISTL matrix is redimensioned

---
 src/LinAlg/ISTLMatrix.C | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LinAlg/ISTLMatrix.C b/src/LinAlg/ISTLMatrix.C
index b4822df..7e5c3cf 100644
--- a/src/LinAlg/ISTLMatrix.C
+++ b/src/LinAlg/ISTLMatrix.C
@@ -130,6 +130,11 @@ void ISTLMatrix::initAssembly (const SAM& sam, char)
   for (const IntSet& dofs : dofc)
     sum += dofs.size();
 
+  // The solver and preconditioner of the former matrix are no longer valid
+  pre.reset();
+  solver.reset();
+  op.reset();
+
   iA.setSize(rows(), cols(), sum);
   iA.setBuildMode(ISTL::Mat::random);
 
-- 
2.43.0


From 96a2cb5dd341ea5d1be4c03472c4e104ceb87a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 097/114] fix: fail when the ISTL solver does not converge, and
 leave the right-hand side as it was

---
 src/LinAlg/ISTLMatrix.C | 64 ++++++++++++++++++++---------------------
 src/LinAlg/ISTLMatrix.h |  5 ++++
 2 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/LinAlg/ISTLMatrix.C b/src/LinAlg/ISTLMatrix.C
index 7e5c3cf..f117016 100644
--- a/src/LinAlg/ISTLMatrix.C
+++ b/src/LinAlg/ISTLMatrix.C
@@ -176,60 +176,58 @@ void ISTLMatrix::init ()
 
 bool ISTLMatrix::solve (SystemVector& B, Real*)
 {
-  this->handleSolverReset();
-
-  if (!pre)
-    std::tie(solver, pre, op) = solParams.setupPC(iA);
-
   ISTLVector* Bptr = dynamic_cast<ISTLVector*>(&B);
-  if (!Bptr || !solver || !pre)
-    return false;
-
-  try {
-    Dune::InverseOperatorResult r;
-    ISTL::Vec b(Bptr->getVector());
-    Bptr->getVector() = 0;
-    solver->apply(Bptr->getVector(), b, r);
-  } catch (Dune::ISTLError& e) {
-    std::cerr << "ISTL exception " << e << std::endl;
+  if (!Bptr)
     return false;
-  }
-
-  for (size_t i = 0; i < rows(); ++i)
-    (*Bptr)(i+1) = Bptr->getVector()[i];
 
-  ++nLinSolves;
-
-  return true;
+  const ISTL::Vec b(Bptr->getVector());
+  Bptr->getVector() = 0;
+  return this->solve(b,*Bptr);
 }
 
 
 bool ISTLMatrix::solve (const SystemVector& b, SystemVector& x)
 {
-  this->handleSolverReset();
-
-  if (!pre)
-    std::tie(solver, pre, op) = solParams.setupPC(iA);
-
   const ISTLVector* Bptr = dynamic_cast<const ISTLVector*>(&b);
-  if (!Bptr || ! solver || !pre)
+  if (!Bptr)
     return false;
 
   ISTLVector* Xptr = dynamic_cast<ISTLVector*>(&x);
   if (!Xptr)
     return false;
 
+  Xptr->redim(rows());
+  Xptr->init();
+  return this->solve(Bptr->getVector(),*Xptr);
+}
+
+
+bool ISTLMatrix::solve (ISTL::Vec b, ISTLVector& x)
+{
+  this->handleSolverReset();
+
+  Dune::InverseOperatorResult r;
   try {
-    Dune::InverseOperatorResult r;
-    solver->apply(Xptr->getVector(),
-                  const_cast<ISTL::Vec&>(Bptr->getVector()), r);
-  } catch (Dune::ISTLError& e) {
+    if (!pre)
+      std::tie(solver, pre, op) = solParams.setupPC(iA);
+
+    if (!solver || !pre)
+      return false;
+
+    solver->apply(x.getVector(), b, r);
+  } catch (Dune::Exception& e) {
     std::cerr << "ISTL exception " << e << std::endl;
     return false;
   }
 
+  if (!r.converged) {
+    std::cerr << " *** ISTLMatrix::solve: No convergence in "
+              << r.iterations << " iterations." << std::endl;
+    return false;
+  }
+
   for (size_t i = 0; i < rows(); ++i)
-    (*Xptr)(i+1) = Xptr->getVector()[i];
+    x(i+1) = x.getVector()[i];
 
   ++nLinSolves;
 
diff --git a/src/LinAlg/ISTLMatrix.h b/src/LinAlg/ISTLMatrix.h
index ab8c7ab..137eea1 100644
--- a/src/LinAlg/ISTLMatrix.h
+++ b/src/LinAlg/ISTLMatrix.h
@@ -127,6 +127,11 @@ public:
   const ISTL::Mat& getMatrix() const { return iA; }
 
 protected:
+  //! \brief Solves the linear system of equations for a given right-hand-side.
+  //! \param[in] b Right-hand-side vector (overwritten by the iterations)
+  //! \param[out] x Solution vector, assumed zero on input
+  bool solve(ISTL::Vec b, ISTLVector& x);
+
   //! \brief Handles solver resets.
   void handleSolverReset();
 
-- 
2.43.0


From b43f3174c7f811a7498bddc9127a4372c067cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:27 +0000
Subject: [PATCH 098/114] fix: read the last line of a stream also when it is
 not terminated

---
 src/Utility/Utilities.C | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 2400498..aaabf77 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -168,17 +168,15 @@ bool utl::parseKnots (std::vector<Real>& xi)
 char* utl::readLine (std::istream& is)
 {
   static char buf[1024];
-  for (size_t n = 0; is.good(); n = strlen(buf))
-  {
-    for (size_t i = 0; i < n; i++)
+  while (is.getline(buf,sizeof(buf)))
+    for (size_t i = 0; i < strlen(buf); i++)
       if (!isspace(buf[i]))
+      {
         if (buf[i] == '#')
           break; // comment line - skip
         else
           return buf+i; // first non-blank character
-
-    is.getline(buf,sizeof(buf));
-  }
+      }
 
   return 0;
 }
-- 
2.43.0


From f5737faca90d85aaf35d7f80399e564504a9decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 099/114] fix: accept trailing blanks in the first line of time
 step input

---
 src/SIM/TimeStep.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index b1fe868..205f76f 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -75,7 +75,7 @@ bool TimeStep::parse (char* keyWord, std::istream& is)
     std::istringstream cline(utl::readLine(is));
     if (i == 0) cline >> starTime;
     cline >> mySteps[i].second >> dt;
-    if (i == 0 && cline.good()) cline >> maxCFL;
+    if (i == 0 && cline.good() && (cline >> std::ws).good()) cline >> maxCFL;
     if (cline.fail() || cline.bad())
       return false;
 
-- 
2.43.0


From c039a0f1031f231c36482a788be3af031a7da3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:24 +0000
Subject: [PATCH 100/114] fix: assemble the linear operator exactly once in
 Runge-Kutta methods

The operator was assembled in the first stage of time step one only. It was
therefore missing after a restart, and zeroed when the first step was repeated
with a smaller step size.
---
 Apps/Utils/SIMExplicitRK.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Apps/Utils/SIMExplicitRK.h b/Apps/Utils/SIMExplicitRK.h
index dcace82..5c52227 100644
--- a/Apps/Utils/SIMExplicitRK.h
+++ b/Apps/Utils/SIMExplicitRK.h
@@ -121,8 +121,7 @@ public:
       if (!solver.updateDirichlet(time.t, &zeroRef, true))
         return false;
 
-      if (!solver.assembleSystem(time, Vectors(1, tmp),
-                                 !linear || (tp.step == 1 && i == 0)))
+      if (!solver.assembleSystem(time, Vectors(1, tmp), assemble))
         return false;
 
       // solve Mk = Au + f
-- 
2.43.0


From 40e5be527ed6c1c26a000f647841094082310149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:24 +0000
Subject: [PATCH 101/114] fix: check the boundary value update of the
 Runge-Kutta error estimate

---
 Apps/Utils/SIMExplicitRKE.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMExplicitRKE.h b/Apps/Utils/SIMExplicitRKE.h
index 54e98a3..e1e656a 100644
--- a/Apps/Utils/SIMExplicitRKE.h
+++ b/Apps/Utils/SIMExplicitRKE.h
@@ -93,7 +93,8 @@ public:
       // construct the error estimate
       for (size_t i=0;i<stages.size();++i)
         error.add(stages[i], tp.time.dt*bs[i]);
-      this->solver.applyDirichlet(error);
+      if (!this->solver.applyDirichlet(error))
+        return false;
       error -= this->solver.getSolution();
 
       const size_t nf = this->solver.getNoFields(1);
-- 
2.43.0


From 45a87aeb2b0276b05bfaa9a865cd68d6217c2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:24 +0000
Subject: [PATCH 102/114] fix: assemble the linear operator after restart in
 explicit multi-step methods

---
 Apps/Utils/SIMExplicitLMM.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/SIMExplicitLMM.h b/Apps/Utils/SIMExplicitLMM.h
index 93e1852..8b9efa4 100644
--- a/Apps/Utils/SIMExplicitLMM.h
+++ b/Apps/Utils/SIMExplicitLMM.h
@@ -83,7 +83,7 @@ public:
       return false;
 
     if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(1)),
-                               !linear || (tp.step == 1)))
+                               assemble))
       return false;
 
     loads[0].reset(solver.getRHSvector(0, true));
@@ -108,8 +108,10 @@ public:
     if (!solver.solveSystem(solver.getSolution()))
       return false;
 
-    if (linear)
+    if (linear) {
       solver.setMode(SIM::RHS_ONLY);
+      assemble = false;
+    }
 
     solver.getSolution() += solver.getSolution(1);
 
@@ -206,6 +208,7 @@ protected:
   const std::string fieldName; //!< Name of primary solution fields (for ICs)
   bool hasICs = false; //!< If true, start with full order
   bool linear = false; //!< If true, mass matrix is constant
+  bool assemble = true; //!< If true, assemble mass matrix
 };
 
 }
-- 
2.43.0


From 2c606ed83302d148d61a0ecd6b582f9394f79f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:24 +0000
Subject: [PATCH 103/114] fix: limit the order of explicit multi-step methods
 by the loads available

There are none after a restart, giving a null pointer dereference.
---
 Apps/Utils/SIMExplicitLMM.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMExplicitLMM.h b/Apps/Utils/SIMExplicitLMM.h
index 8b9efa4..320ab2a 100644
--- a/Apps/Utils/SIMExplicitLMM.h
+++ b/Apps/Utils/SIMExplicitLMM.h
@@ -96,7 +96,11 @@ public:
        {251.0/720.0, -1274.0/720.0, 2616.0/720.0, -2774.0/720.0, 1901.0/720.0}
     };
 
-    const int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    // The order is limited by the load vectors available
+    const int m_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    int c_order = 0;
+    while (c_order < m_order && loads[c_order+1])
+      ++c_order;
     const std::vector<double>& AB_coef = AB_coefs[c_order];
 
     SystemVector* rhs = solver.getRHSvector(0, false);
-- 
2.43.0


From c6cb389275a3c8b1fd6671b1b02bbe9208c72d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:24 +0000
Subject: [PATCH 104/114] fix: evaluate the initial loads of implicit
 multi-step methods at correct time

The scheme uses the loads at the current and earlier solutions. These were
evaluated one step too early.
---
 Apps/Utils/SIMImplicitLMM.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index ef27d74..e32021b 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -106,8 +106,8 @@ public:
         if (std::string fName = fieldName + std::to_string(j);
             solver.hasIC(fName)) {
           TimeDomain time(tp.time);
-          time.t = tp.time.t - j*tp.time.dt;
-          if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-1))))
+          time.t = tp.time.t - (j-1)*tp.time.dt;
+          if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-2))))
             return false;
 
           loads[j-2] = solver.getRHSvector(0, true);
-- 
2.43.0


From d4bc56cd8819e8ef87e639d5e4cfe197d3352262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:33 +0000
Subject: [PATCH 105/114] fix: avoid double deletion of the loads of implicit
 multi-step methods

The newest load vector was referred twice after advanceStep, and therefore
deleted twice when the following step failed.
---
 Apps/Utils/SIMImplicitLMM.h | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index e32021b..6b95924 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -20,6 +20,9 @@
 #include "TimeIntUtils.h"
 #include "TimeStep.h"
 
+#include <memory>
+#include <utility>
+
 class DataExporter;
 
 
@@ -49,18 +52,11 @@ public:
     else
       order = 1;
 
-    loads.resize(order, nullptr);
+    loads.resize(order);
 
     Solver::msgLevel = 1; // prints primary solution summary only
   }
 
-  //! \brief Destructor frees up the load vectors.
-  ~SIMImplicitLMM()
-  {
-    for (SystemVector* v : loads)
-      delete v;
-  }
-
   //! \copydoc ISolver::getProcessAdm()
   const ProcessAdm& getProcessAdm() const { return solver.getProcessAdm(); }
 
@@ -91,7 +87,7 @@ public:
     if (!solver.assembleSystem(tp.time, Vectors(1, solver.getSolution()), false))
       return false;
 
-    loads[0] = solver.getRHSvector(0, true);
+    loads[0].reset(solver.getRHSvector(0, true));
 
     return true;
   }
@@ -110,15 +106,15 @@ public:
           if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-2))))
             return false;
 
-          loads[j-2] = solver.getRHSvector(0, true);
+          loads[j-2].reset(solver.getRHSvector(0, true));
         }
         else
           hasICs = false;
     }
 
-    delete loads.back();
+    loads.back().reset();
     for (int j = order-2; j >= 0; --j)
-      loads[j+1] = loads[j];
+      loads[j+1] = std::move(loads[j]);
 
     return solver.advanceStep(tp);
   }
@@ -156,6 +152,8 @@ public:
   }
 
 protected:
+  using LoadVectors = std::vector<std::unique_ptr<SystemVector>>; //!< Convenience type
+
   //! \brief Specialized nonlinear solver for implicit LMM methods.
   class LMMNonLinSIM : public NonLinSIM
   {
@@ -163,7 +161,7 @@ protected:
     //! \brief The constructor initializes default solution parameters.
     //! \param sim Pointer to the spline FE model
     //! \param load Vector of system load vectors
-    LMMNonLinSIM(SIMbase& sim, std::vector<SystemVector*>& load)
+    LMMNonLinSIM(SIMbase& sim, LoadVectors& load)
       : NonLinSIM(sim), loads(load) {}
 
     //! \brief Set scaling coefficients
@@ -188,13 +186,13 @@ protected:
     }
 
   private:
-    std::vector<SystemVector*>& loads; //!< Reference to load vectors
-    std::vector<double>         coefs; //!< Time integration coefficients
+    LoadVectors&        loads; //!< Reference to load vectors
+    std::vector<double> coefs; //!< Time integration coefficients
   };
 
   Solver& solver; //!< Reference to simulator
   LMMNonLinSIM nSim; //!< Nonlinear solver
-  std::vector<SystemVector*> loads; //!< Unscaled load vectors
+  LoadVectors loads; //!< Unscaled load vectors
   int order; //!< Order of method
   const std::string fieldName; //!< Name of primary solution fields (for ICs)
   bool hasICs = false; //!< If true, start with full order
-- 
2.43.0


From dba9012a9ce810c70eaf63721e2a0119756b6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:33 +0000
Subject: [PATCH 106/114] fix: limit the order of implicit multi-step methods
 by the loads available

There are none after a restart, giving a null pointer dereference.
---
 Apps/Utils/SIMImplicitLMM.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index 6b95924..28a7e75 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -70,7 +70,12 @@ public:
        {1.0/24.0, -5.0/24, 19.0/24.0, 9.0/24.0},
        {-19.0/720.0, 106.0/720.0, -264.0/720.0, 646.0/720.0, 251.0/720.0}};
 
-    const int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    // The order is limited by the load vectors available
+    const int m_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    int c_order = 0;
+    while (c_order < m_order && loads[c_order+1])
+      ++c_order;
+
     nSim.setCoefs(AM_coefs[c_order]);
 
     nSim.initSol(2);
-- 
2.43.0


From 94d80bba94e0b4e9dbf792e3aa3250ecf4d7fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:33 +0000
Subject: [PATCH 107/114] fix: account for a changed step size in the second
 step of BDF2

---
 src/Utility/BDF.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/BDF.C b/src/Utility/BDF.C
index 64aefd5..698b5ea 100644
--- a/src/Utility/BDF.C
+++ b/src/Utility/BDF.C
@@ -49,7 +49,7 @@ bool TimeIntegration::BDF::advanceStep (double dt, double dtn)
   if (coefs1.size() < 2)
     return false; // stationary problem
 
-  if (++step > 2 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
+  if (++step > 1 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
   {
     double tau = dt/dtn;
     double taup1 = tau + 1.0;
-- 
2.43.0


From 7f6e1a9efe5c14c1fdcddf785d2a940ca2b14549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:57 +0000
Subject: [PATCH 108/114] fix: add all vectors and reaction forces of algebraic
 systems

---
 src/ASM/AlgEqSystem.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 797e3eb..f39e001 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -136,13 +136,13 @@ AlgEqSystem& AlgEqSystem::add (const AlgEqSystem& that)
   for (i = 0; i < A.size() && i < that.A.size(); i++)
     A[i]._A->add(*that.A[i]._A);
 
-  for (i = 0; i < b.size() && i < that.A.size(); i++)
+  for (i = 0; i < b.size() && i < that.b.size(); i++)
     b[i]->add(*that.b[i]);
 
   for (i = 0; i < c.size() && i < that.c.size(); i++)
     c[i] += that.c[i];
 
-  for (i = 0; i < b.size() && i < that.R.size(); i++)
+  for (i = 0; i < R.size() && i < that.R.size(); i++)
     R[i] += that.R[i];
 
   return *this;
-- 
2.43.0


From 575970d8d20409ea4aa3ee9ec5d5fdcf47c598b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:57 +0000
Subject: [PATCH 109/114] fix: no out-of-range access in static condensation
 and recovery

---
 src/ASM/AlgEqSystem.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index f39e001..242a642 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -355,7 +355,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
                                       const IntVec& extNodes, size_t imat,
                                       const char* recmatFile) const
 {
-  if (imat > A.size()) return false;
+  if (imat >= A.size()) return false;
 
   const SparseMatrix* Amat = dynamic_cast<const SparseMatrix*>(A[imat]._A);
   const double*       Rvec = A[imat]._b ? A[imat]._b->getRef() : nullptr;
@@ -397,7 +397,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
   Vector    R2(neq2); // External (retained) DOFs
   size_t ieq, ip2, ieq1 = 0, ieq2 = 0;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (static_cast<int>(ieq)+1 < meqn2[ip2])
+    if (ip2 >= meqn2.size() || static_cast<int>(ieq)+1 < meqn2[ip2])
       R1(++ieq1) = Rvec[ieq];
     else
     {
@@ -552,7 +552,7 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
   Vector x(neq0);
   int ieq, ip2, ieq1 = 0, ieq2 = 0;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (ieq+1 < meqn2[ip2])
+    if (ip2 >= static_cast<int>(neq2) || ieq+1 < meqn2[ip2])
       x[ieq] = x1(++ieq1);
     else
     {
-- 
2.43.0


From 5b4bd045f1a2e5d1465e31a8f820fee01ee49672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:57 +0000
Subject: [PATCH 110/114] fix: number off-diagonal blocks of full symmetric
 storage consistently

---
 src/ASM/BlockElmMats.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/BlockElmMats.C b/src/ASM/BlockElmMats.C
index 6e3fa26..ced4dff 100644
--- a/src/ASM/BlockElmMats.C
+++ b/src/ASM/BlockElmMats.C
@@ -51,11 +51,11 @@ bool BlockElmMats::redim (size_t blkIndex, size_t nen, size_t ncmp, char basis)
 bool BlockElmMats::redimOffDiag (size_t blkIndex, char symmetric)
 {
   size_t nDiagB = blockInfo.size();
-  if (blkIndex <= nDiagB || blkIndex > A.size())
+  if (blkIndex <= nDiagB || blkIndex >= A.size())
     return false; // Not an off-diagonal sub-matrix
 
   size_t kb = nDiagB;
-  bool symm = A.size()-1 < nDiagB*(nDiagB+1)/2;
+  bool symm = A.size()-1 <= nDiagB*(nDiagB+1)/2;
   if (symmFlag.empty())
     symmFlag.resize(nDiagB*(nDiagB-1) / (symm ? 2 : 1), 0);
   for (size_t ib = 0; ib < nDiagB; ib++)
-- 
2.43.0


From 9306c841b58f052643ee6d31e174d38479bc2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:58 +0000
Subject: [PATCH 111/114] fix: nodal forces of node lists with duplicates

---
 src/ASM/GlbForceVec.C | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ASM/GlbForceVec.C b/src/ASM/GlbForceVec.C
index 8814b3b..3bdb024 100644
--- a/src/ASM/GlbForceVec.C
+++ b/src/ASM/GlbForceVec.C
@@ -32,7 +32,7 @@ bool GlbForceVec::initNodeMap (const std::vector<int>& globalNodes, size_t nfc)
     else
       illegal++;
 
-  F.resize(nfc,nodeMap.size());
+  F.resize(nfc,globalNodes.size());
   if (illegal == 0) return true;
 
   std::cerr <<" *** GlbForceVec::initNodeMap: "<< illegal
@@ -120,11 +120,15 @@ Vec3 GlbForceVec::getTotalForce () const
 
 int GlbForceVec::getForce (size_t indx, Vec3& force) const
 {
-  if (indx < F.cols() && indx < nodeNum.size())
-    force = Vec3(F.getColumn(indx+1));
-  else
+  if (indx >= nodeNum.size())
     return 0;
 
+  std::map<int,size_t>::const_iterator nit = nodeMap.find(nodeNum[indx]);
+  if (nit == nodeMap.end())
+    return 0;
+
+  force = Vec3(F.getColumn(nit->second));
+
 #if SP_DEBUG > 1
   std::cout <<"Force in node "<< nodeNum[indx] <<": "<< force << std::endl;
 #endif
-- 
2.43.0


From b706c16960ca94671b4fe57318838125f194bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:58 +0000
Subject: [PATCH 112/114] fix: recovered solution of condensed system has the
 prescribed values

---
 src/ASM/AlgEqSystem.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 242a642..f66ce67 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -549,7 +549,7 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
   }
 
   // Construct the full vector
-  Vector x(neq0);
+  StdVector x(neq0);
   int ieq, ip2, ieq1 = 0, ieq2 = 0;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
     if (ip2 >= static_cast<int>(neq2) || ieq+1 < meqn2[ip2])
@@ -561,5 +561,5 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
     }
 
   // Expand to DOF-order
-  return sam.expandVector(x,xFull);
+  return sam.expandSolution(x,xFull);
 }
-- 
2.43.0


From 9b45e24595df7d96e74de01126f1465317d2cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:50 +0000
Subject: [PATCH 113/114] fix: process all control commands waiting in the fifo

---
 src/Utility/ControlFIFO.C | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/Utility/ControlFIFO.C b/src/Utility/ControlFIFO.C
index 1beba48..cfd8ac7 100644
--- a/src/Utility/ControlFIFO.C
+++ b/src/Utility/ControlFIFO.C
@@ -54,26 +54,30 @@ void ControlFIFO::poll ()
     return;
 
   char temp[2048];
-  temp[0] = '\0';
-  int len = read(fifo, temp, 2048);
-  if (len < 0)
-    return;
+  std::string data;
+  for (ssize_t len = 1; len > 0;)
+    if ((len = read(fifo, temp, sizeof(temp))) > 0)
+      data.append(temp, len);
 
-  temp[len] = '\0';
-  if (!strlen(temp))
+  if (data.empty())
     return;
 
   tinyxml2::XMLDocument doc;
-  doc.Parse(temp);
+  doc.Parse(data.c_str());
   if (!doc.RootElement()) {
-    std::cerr <<" *** Invalid control data received:\n"<< temp << std::endl;
+    std::cerr <<" *** Invalid control data received:\n"<< data << std::endl;
     return;
   }
 
-  tinyxml2::XMLElement* elem = doc.RootElement()->FirstChildElement();
-  for (; elem; elem = elem->NextSiblingElement())
-    if (callbacks.find(elem->Value()) != callbacks.end())
-      callbacks[elem->Value()]->OnControl(elem);
+  // There may be several messages waiting, each with its own root element
+  tinyxml2::XMLElement* root = doc.RootElement();
+  for (; root; root = root->NextSiblingElement())
+  {
+    tinyxml2::XMLElement* elem = root->FirstChildElement();
+    for (; elem; elem = elem->NextSiblingElement())
+      if (callbacks.find(elem->Value()) != callbacks.end())
+        callbacks[elem->Value()]->OnControl(elem);
+  }
 }
 
 
-- 
2.43.0


From 00f286d457d3078d6e1fe8ad1d58dc5aec320e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:50 +0000
Subject: [PATCH 114/114] fix: report failure to open the control fifo

---
 src/Utility/ControlFIFO.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utility/ControlFIFO.C b/src/Utility/ControlFIFO.C
index cfd8ac7..4dd1acd 100644
--- a/src/Utility/ControlFIFO.C
+++ b/src/Utility/ControlFIFO.C
@@ -38,7 +38,9 @@ bool ControlFIFO::open (const char* name)
 #if !defined(__MINGW64__) || !defined(__MINGW32__)
   if (mkfifo(name, S_IWUSR | S_IRUSR | S_IRGRP | S_IROTH) == 0) {
     fifo = ::open(name, O_RDONLY | O_NONBLOCK);
-    return true;
+    if (fifo != -1)
+      return true;
+    unlink(name);
   }
   std::cerr <<" *** Error creating control fifo '"<< fifo_name <<"'\n"
             <<"     Application will not be externally controllable."
-- 
2.43.0


From f021e96d9c9ac4d03c396a47de5b5f306dab8a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 01/34] fix: forget the last structure when OPTIMIZED value
 gets reset

PQEvaluatorOptimized kept using its last structure after the calculator
value was zeroed by setStructure, changed by merging parallel data,
partially updated in a failed evaluation, or computed for a different
CPU share.  The next fast update then started from a wrong value.
---
 src/diffpy/srreal/PQEvaluator.cpp  | 18 +++++++++++++++---
 src/diffpy/srreal/PQEvaluator.hpp  | 11 ++++++++---
 src/diffpy/srreal/PairQuantity.cpp |  4 ++++
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 7187405..ef254a7 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -149,6 +149,8 @@ void PQEvaluatorBasic::setupParallelRun(int cpuindex, int ncpu)
         const char* emsg = "Number of CPU ncpu must be at least 1.";
         throw invalid_argument(emsg);
     }
+    // partial sums from a different split cannot be updated
+    if (mcpuindex != cpuindex || mncpu != ncpu)  this->invalidate();
     mcpuindex = cpuindex;
     mncpu = ncpu;
 }
@@ -177,6 +179,12 @@ void PQEvaluatorOptimized::validate(PairQuantity& pq) const
 }
 
 
+void PQEvaluatorOptimized::invalidate()
+{
+    mlast_structure.reset();
+}
+
+
 void PQEvaluatorOptimized::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
@@ -187,8 +195,12 @@ void PQEvaluatorOptimized::updateValue(
     {
         return this->updateValueCompletely(pq, stru);
     }
+    // the last structure becomes valid again only after a full update,
+    // do not keep it if there is an exception in the middle of evaluation.
+    const StructureAdapterPtr last_structure = mlast_structure;
+    this->invalidate();
     // do not do fast updates if they take more work
-    StructureDifference sd = mlast_structure->diff(stru);
+    StructureDifference sd = last_structure->diff(stru);
     if (!sd.allowsfastupdate())
     {
         return this->updateValueCompletely(pq, stru);
@@ -199,7 +211,7 @@ void PQEvaluatorOptimized::updateValue(
         return this->updateValueCompletely(pq, stru);
     }
     // Remove contributions from the extra sites in the old structure
-    assert(sd.stru0 == mlast_structure);
+    assert(sd.stru0 == last_structure);
     int cntsites0 = sd.stru0->countSites();
     BaseBondGeneratorPtr bnds0 = sd.stru0->createBondGenerator();
     pq.configureBondGenerator(*bnds0);
@@ -418,7 +430,7 @@ void PQEvaluatorCheck::updateValue(
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
     unique_ptr<pqresults> results(create_pqresults(pq));
-    this->PQEvaluatorBasic::updateValue(pq, stru);
+    this->updateValueCompletely(pq, stru);
     mtypeused = CHECK;
     if (!results->compare(pq))
     {
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 8fa5f22..0988cd1 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -66,6 +66,8 @@ class PQEvaluatorBasic
         PQEvaluatorType typeintused() const;
         virtual void updateValue(PairQuantity&, StructureAdapterPtr);
         virtual void validate(PairQuantity&) const;
+        /// forget any data related to the last evaluation
+        virtual void invalidate()  { }
         void setFlag(PQEvaluatorFlag flag, bool value);
         bool getFlag(PQEvaluatorFlag flag) const;
         void setupParallelRun(int cpuindex, int ncpu);
@@ -105,16 +107,19 @@ class PQEvaluatorOptimized : public PQEvaluatorBasic
         // methods
         virtual PQEvaluatorType typeint() const;
         virtual void validate(PairQuantity&) const;
+        virtual void invalidate();
         virtual void updateValue(PairQuantity&, StructureAdapterPtr);
 
+    protected:
+
+        // helper method
+        void updateValueCompletely(PairQuantity&, StructureAdapterPtr);
+
     private:
 
         // data
         StructureAdapterPtr mlast_structure;
 
-        // helper method
-        void updateValueCompletely(PairQuantity&, StructureAdapterPtr);
-
         // serialization
         friend class boost::serialization::access;
         template<class Archive>
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b525b54..288c331 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -100,6 +100,8 @@ void PairQuantity::mergeParallelData(const string& pdata, int ncpu)
         const char* emsg = "Number of merged values exceeds NCPU.";
         throw runtime_error(emsg);
     }
+    // merged value does not belong to the last evaluated structure
+    mevaluator->invalidate();
     this->executeParallelMerge(pdata);
     ++mmergedvaluescount;
     if (mmergedvaluescount == ncpu)  this->finishValue();
@@ -348,6 +350,8 @@ void PairQuantity::resizeValue(size_t sz)
 void PairQuantity::resetValue()
 {
     mmergedvaluescount = 0;
+    // zeroed value cannot be used for fast updates
+    mevaluator->invalidate();
     fill(mvalue.begin(), mvalue.end(), 0.0);
 }
 
-- 
2.43.0


From 65c137e3598005a04042cf2664c62bc3e32ea173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 02/34] fix: compare finished values in PQEvaluatorCheck

BondCalculator has no values until finishValue, therefore the CHECK
evaluator has always failed at a fast update of bond data.
---
 src/diffpy/srreal/PQEvaluator.cpp  | 3 +++
 src/diffpy/srreal/PairQuantity.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index ef254a7..966d628 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -429,9 +429,12 @@ void PQEvaluatorCheck::updateValue(
 {
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
+    // compare final values, some are not sorted until finished.
+    pq.finishValue();
     unique_ptr<pqresults> results(create_pqresults(pq));
     this->updateValueCompletely(pq, stru);
     mtypeused = CHECK;
+    pq.finishValue();
     if (!results->compare(pq))
     {
         const char* emsg = "Inconsistent results from OPTIMIZED evaluation.";
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index b80086e..191733b 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -84,6 +84,7 @@ class PairQuantity : public diffpy::Attributes
 
         friend class PQEvaluatorBasic;
         friend class PQEvaluatorOptimized;
+        friend class PQEvaluatorCheck;
         friend StructureAdapterPtr
             replacePairQuantityStructure(PairQuantity&, StructureAdapterPtr);
 
-- 
2.43.0


From cc5c7d3042ab88d72ac0b379a8b6d03524868c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 03/34] fix: do not fast-update PDF values when the calculated
 range changes

The pair range of PDFCalculator and DebyePDFCalculator depends on the
largest displacement in the structure and (Debye) also on rstep.  Fast
update ignored unchanged pairs that entered or left that range and the
OPTIMIZED value differed from the full calculation.
---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 10 ++++++++++
 src/diffpy/srreal/DebyePDFCalculator.hpp |  5 +++++
 src/diffpy/srreal/PDFCalculator.cpp      |  8 ++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index d77198e..6701067 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -47,6 +47,8 @@ DebyePDFCalculator::DebyePDFCalculator() :
     mrcalchisteps(0),
     mrlimits_are_cached(false)
 {
+    mvalue_rlimits.rcalclo = -1.0;
+    mvalue_rlimits.rcalchi = -1.0;
     // default configuration
     this->setScatteringFactorTableByType("xray");
     this->setRmax(DEFAULT_PDFCALCULATOR_RMAX);
@@ -267,6 +269,14 @@ void DebyePDFCalculator::resetValue()
 {
     this->cacheRlimitsData();
     this->updateQstep();
+    // every pair in the r-limits contributes to the whole F(Q) and thus
+    // fast updates are not possible if the limits have changed.
+    const bool samelimits =
+        mvalue_rlimits.rcalclo == this->rcalclo() &&
+        mvalue_rlimits.rcalchi == this->rcalchi();
+    if (!samelimits)  mticker.click();
+    mvalue_rlimits.rcalclo = this->rcalclo();
+    mvalue_rlimits.rcalchi = this->rcalchi();
     this->BaseDebyeSum::resetValue();
 }
 
diff --git a/src/diffpy/srreal/DebyePDFCalculator.hpp b/src/diffpy/srreal/DebyePDFCalculator.hpp
index 512e288..4642819 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.hpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.hpp
@@ -130,6 +130,11 @@ class DebyePDFCalculator :
         mutable int mrcalclosteps;
         mutable int mrcalchisteps;
         mutable bool mrlimits_are_cached;
+        // r-limits for the current value, intentionally not serialized
+        struct {
+            double rcalclo;
+            double rcalchi;
+        } mvalue_rlimits;
 
         // serialization
         friend class boost::serialization::access;
diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 47c7189..029acbf 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -727,6 +727,8 @@ void PDFCalculator::cacheStructureData()
 
 void PDFCalculator::cacheRlimitsData()
 {
+    const int oldrcalclosteps = mrlimits_cache.rcalclosteps;
+    const int oldrcalchisteps = mrlimits_cache.rcalchisteps;
     mrlimits_cache.extendedrminsteps = 0;
     mrlimits_cache.extendedrmaxsteps = 0;
     mrlimits_cache.rcalclosteps = 0;
@@ -751,6 +753,12 @@ void PDFCalculator::cacheRlimitsData()
     mrlimits_cache.extendedrmaxsteps = pdfutils_rmaxSteps(rmax + ext_ripples, dr);
     mrlimits_cache.rcalclosteps = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
     mrlimits_cache.rcalchisteps = pdfutils_rmaxSteps(rmax + ext_total, dr);
+    // fast updates do not adjust contributions from unchanged pairs
+    // that entered or left the calculated range.
+    const bool samelimits =
+        mrlimits_cache.rcalclosteps == oldrcalclosteps &&
+        mrlimits_cache.rcalchisteps == oldrcalchisteps;
+    if (!samelimits)  mticker.click();
 }
 
 }   // namespace diffpy
-- 
2.43.0


From 516b5f6a1f2953412e6e43b567c79e8b51394095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 04/34] fix: support serialization of calculators with CHECK
 evaluator

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 src/diffpy/srreal/PQEvaluator.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 966d628..a8119c3 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -487,5 +487,7 @@ DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorBasic)
 DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorOptimized)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorOptimized)
+DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorCheck)
+BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorCheck)
 
 // End of file
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 0988cd1..6555d2c 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -165,5 +165,6 @@ PQEvaluatorPtr createPQEvaluator(
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorOptimized)
+BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorCheck)
 
 #endif  // PQEVALUATOR_HPP_INCLUDED
-- 
2.43.0


From 8f70fbca72300ca4f6e9f045e1772744ef86e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 05/34] fix: allow OPTIMIZED PDF evaluation for an empty
 r-range

---
 src/diffpy/srreal/PDFCalculator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 029acbf..cbd576e 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -546,8 +546,6 @@ void PDFCalculator::stashPartialValue()
 
 void PDFCalculator::restorePartialValue()
 {
-    assert(!mstashedvalue.value.empty());
-    assert(!mvalue.empty());
     QuantityType::const_iterator si = mstashedvalue.value.begin();
     QuantityType::const_iterator slast = mstashedvalue.value.end();
     QuantityType::iterator ti = mvalue.begin();
-- 
2.43.0


From 99e9b2fd973c824d42eb4709b805c63550cc5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 06/34] fix: accept bonds that are exactly parallel to the cone
 axis

---
 src/diffpy/srreal/BondCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 21e8435..d2b53c1 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -285,7 +285,9 @@ bool BondCalculator::checkConeFilters(const R3::Vector& ru01) const
     for (;  coneax != mfilter_directions.end(); ++coneax, ++deg)
     {
         if (180.0 <= *deg)    return true;
-        double angledegrees = 180.0 / M_PI * acos(R3::dot(ru01, *coneax));
+        // avoid NaN from acos due to round-offs at parallel directions
+        const double cosa = max(-1.0, min(1.0, R3::dot(ru01, *coneax)));
+        double angledegrees = 180.0 / M_PI * acos(cosa);
         if (angledegrees <= *deg)    return true;
     }
     return false;
-- 
2.43.0


From bca42f398d51f3a27236c2d7662e3b9a63cae2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 07/34] fix: evaluate bonds completely in parallel runs

Fast update in parallel BondCalculator produced partial lists of removed
and added bonds, which failed at assertion or gave wrong merged bonds.
---
 src/diffpy/srreal/PQEvaluator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index a8119c3..20c32f3 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -195,6 +195,12 @@ void PQEvaluatorOptimized::updateValue(
     {
         return this->updateValueCompletely(pq, stru);
     }
+    // partial lists of removed and added bonds cannot be combined when
+    // different CPUs process the old and new bonds.
+    if (this->isParallel() && this->getFlag(FIXEDSITEINDEX))
+    {
+        return this->updateValueCompletely(pq, stru);
+    }
     // the last structure becomes valid again only after a full update,
     // do not keep it if there is an exception in the middle of evaluation.
     const StructureAdapterPtr last_structure = mlast_structure;
-- 
2.43.0


From a54482d1d414a4307d6ac248c205ec928694de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 08/34] fix: place averaged symmetry positions correctly in the
 unit cell

Mean of duplicate positions, which wrapped to the opposite cell faces,
was moved away by up to half of the cell.  Positions in a structure
without symmetry operations were not moved to the unit cell, thus
the bond generator could miss their neighbors.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9db5f0d..da4b039 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -181,7 +181,11 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
             eqduplicity.push_back(0);
             ieq = eqsites.size() - 1;
         }
-        eqsumpos[ieq] += L.ucvFractional(a1.xyz_cartn);
+        // sum offsets to the nearest image of the symmetry site, because
+        // duplicates may be wrapped to opposite faces of the unit cell.
+        R3::Vector dxyz = a1.xyz_cartn - eqsites[ieq].xyz_cartn;
+        for (int i = 0; i < R3::Ndim; ++i)  dxyz[i] -= round(dxyz[i]);
+        eqsumpos[ieq] += dxyz;
         eqduplicity[ieq] += 1;
     }
     // assume P1 if symmetry operations were not defined
@@ -191,7 +195,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
         assert(eqsumpos.empty());
         assert(eqduplicity.empty());
         eqsites.push_back(a0);
-        eqsumpos.push_back(a0.xyz_cartn);
+        eqsumpos.push_back(R3::zerovector);
         eqduplicity.push_back(1);
     }
     // calculate mean values from equivalent sites and adjust any roundoffs
@@ -202,7 +206,8 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
     vector<int>::const_iterator dpi = eqduplicity.begin();
     for (; ai != eqsites.end(); ++ai, ++sii, ++dpi)
     {
-        ai->xyz_cartn = (*sii) / (*dpi);
+        ai->xyz_cartn += (*sii) / (*dpi);
+        ai->xyz_cartn = L.ucvFractional(ai->xyz_cartn);
     }
     return eqsites;
 }
-- 
2.43.0


From 6cfa71efba3bf017d269eefbe0b0d79aa494007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 09/34] fix: use anchor displacements that match its symmetry
 position

The anchor is placed at the first symmetry position, but its Uij was
taken from the asymmetric unit.  Bond msd was wrong for anisotropic
sites when the first operation was not identity.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 8 ++++++++
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index da4b039..9b40290 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -294,6 +294,7 @@ CrystalStructureBondGenerator::CrystalStructureBondGenerator(
     mcstructure = dynamic_cast<const CrystalStructureAdapter*>(adpt.get());
     assert(mcstructure);
     msymidx = 0;
+    mpuc0 = &(R3::zeromatrix());
     mpuc1 = &(R3::zeromatrix());
 }
 
@@ -304,6 +305,13 @@ void CrystalStructureBondGenerator::selectAnchorSite(int anchor)
     this->BaseBondGenerator::selectAnchorSite(anchor);
     const Atom& a0 = this->symatoms(anchor)[0];
     mr0 = a0.xyz_cartn;
+    mpuc0 = &(a0.uij_cartn);
+}
+
+
+const R3::Matrix& CrystalStructureBondGenerator::Ucartesian0() const
+{
+    return *mpuc0;
 }
 
 
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5664581..5783ad3 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -148,6 +148,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         virtual void selectAnchorSite(int);
 
         // data access
+        virtual const R3::Matrix& Ucartesian0() const;
         virtual const R3::Matrix& Ucartesian1() const;
 
     protected:
@@ -161,6 +162,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         // data
         const CrystalStructureAdapter* mcstructure;
         size_t msymidx;
+        const R3::Matrix* mpuc0;
         const R3::Matrix* mpuc1;
 
     private:
-- 
2.43.0


From 5653a38c923033db73e2c58f0f7283a82f21a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 10/34] fix: detect changed atoms and lattice in cached
 symmetry positions

Symmetry positions were not updated after in-place change of atoms or
lattice until the next bond generator.  PDF scaling used site
multiplicities and total occupancy of the old structure.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 13 +++++++++----
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 10 ++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9b40290..9b489ca 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -69,7 +69,7 @@ BaseBondGeneratorPtr CrystalStructureAdapter::createBondGenerator() const
 
 int CrystalStructureAdapter::siteMultiplicity(int idx) const
 {
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     int rv = msymatoms[idx].size();
     return rv;
 }
@@ -147,7 +147,7 @@ const CrystalStructureAdapter::AtomVector&
 CrystalStructureAdapter::getEquivalentAtoms(int idx) const
 {
     assert(0 <= idx && idx < this->countSites());
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     return msymatoms[idx];
 }
 
@@ -230,6 +230,8 @@ void CrystalStructureAdapter::updateSymmetryPositions() const
         iterator ai = saii->begin();
         for (; ai != saii->end(); ++ai)  this->toCartesian(*ai);
     }
+    msymsource.assign(this->begin(), this->end());
+    msymlattice = this->getLattice();
     msymmetry_cached = true;
 }
 
@@ -253,10 +255,13 @@ int CrystalStructureAdapter::findEqualPosition(
     return -1;
 }
 
-bool CrystalStructureAdapter::isSymmetryCached() const
+bool CrystalStructureAdapter::isSymmetryCached(int idx) const
 {
     msymmetry_cached = msymmetry_cached &&
-        (int(msymatoms.size()) == this->countSites());
+        (int(msymatoms.size()) == this->countSites()) &&
+        (int(msymsource.size()) == this->countSites()) &&
+        (msymsource[idx] == this->at(idx)) &&
+        (msymlattice == this->getLattice());
     return msymmetry_cached;
 }
 
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5783ad3..1c71058 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -101,14 +101,16 @@ class CrystalStructureAdapter : public PeriodicStructureAdapter
         double msymmetry_precision;
         mutable std::vector<AtomVector> msymatoms;
         mutable bool msymmetry_cached;
+        /// asymmetric unit and lattice that were expanded to msymatoms
+        /// intentionally not serialized
+        mutable AtomVector msymsource;
+        mutable Lattice msymlattice;
 
         // symmetry helpers
         /// return index of AtomVector atom at an equal position or -1
         int findEqualPosition(const AtomVector&, const Atom&) const;
-        /// fuzzy check if symmetry positions are up to date
-        /// this only detects addition or removal of atom in the asymmetric
-        /// unit, but does not check for changes in atom positions.
-        bool isSymmetryCached() const;
+        /// check if symmetry positions are up to date for site i
+        bool isSymmetryCached(int idx) const;
 
         // comparison
         friend bool operator==(
-- 
2.43.0


From 30feec04fb9d43c90f3813fdac75d5842280bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 11/34] fix: last mask call decides about pairs with two
 overlapping masks

Pairs covered by opposite whole-site masks (or opposite masks of two
types with all) were resolved in the order of a hash table, type mask
query was not symmetric and repeated whole-site mask that changed some
pairs did not advance the configuration ticker.
---
 src/diffpy/srreal/PairQuantity.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 288c331..2ff5ac4 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -239,7 +239,13 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         int cntsites = this->countSites();
         for (int l = 0; l < cntsites; ++l)
         {
-            this->setPairMaskValue(k, l, mask);
+            if (this->setPairMaskValue(k, l, mask))  modified = true;
+        }
+        // the last call decides about pairs in several whole-site masks,
+        // save their values even if the sites do not exist yet.
+        for (auto&& lm : msiteallmask)
+        {
+            if (this->setPairMaskValue(k, lm.first, mask))  modified = true;
         }
         if (modified)  mticker.click();
         return;
@@ -315,6 +321,20 @@ setTypeMask(string smbli, string smblj, bool mask)
             }
             else  ++tpmsk;
         }
+        // the last call decides about pairs of types when both of them
+        // have masks with all types.
+        vector< pair<string,string> > conflicts;
+        for (auto&& tm : mtypemask)
+        {
+            const bool hasall = (ALLATOMSSTR == tm.first.first ||
+                    ALLATOMSSTR == tm.first.second);
+            if (!hasall || tm.first == smblij || tm.second == mask)  continue;
+            const string& sl = (ALLATOMSSTR != tm.first.first) ?
+                tm.first.first : tm.first.second;
+            conflicts.push_back(
+                    (sk > sl) ? make_pair(sl, sk) : make_pair(sk, sl));
+        }
+        for (auto&& kl : conflicts)  mtypemask[kl] = mask;
     }
     pair<TypeMaskStorage::iterator, bool> pmm;
     pmm = mtypemask.emplace(smblij, mask);
@@ -434,6 +454,8 @@ void PairQuantity::updateMaskData()
         {
             for (int j = 0; j < cntsites; ++j)
             {
+                // pairs of two whole-site masks were resolved in setPairMask
+                if (j != ia->first && msiteallmask.count(j))  continue;
                 this->setPairMaskValue(ia->first, j, ia->second);
             }
         }
-- 
2.43.0


From efcd69bbf787a7d5d5371bf9dd178ea7cf9c56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 12/34] fix: use occupancy of every site in the Debye sum

Scattering factors scaled by occupancy were cached per atom type, thus
all sites of the same type had occupancy of the first one.
---
 src/diffpy/srreal/BaseDebyeSum.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index e416569..5af5963 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -17,6 +17,7 @@
 *****************************************************************************/
 
 #include <cassert>
+#include <map>
 #include <string>
 #include <stdexcept>
 #include <sstream>
@@ -234,19 +235,22 @@ void BaseDebyeSum::cacheStructureData()
     int cntsites = this->countSites();
     const int nqpts = pdfutils_qmaxSteps(this);
     QuantityType zeros(nqpts, 0.0);
-    unordered_map<string,int> atomtypeidx;
+    // sfSiteAtQ depends on both atom type and occupancy
+    map<pair<string,double>, int> atomtypeidx;
     // sftypeatkq
     mstructure_cache.typeofsite.clear();
     mstructure_cache.typeofsite.reserve(cntsites);
     mstructure_cache.sftypeatkq.clear();
     for (int siteidx = 0; siteidx < cntsites; ++siteidx)
     {
-        const string& smbl = mstructure->siteAtomType(siteidx);
-        if (!atomtypeidx.count(smbl))
+        const pair<string,double> smblocc(
+                mstructure->siteAtomType(siteidx),
+                mstructure->siteOccupancy(siteidx));
+        if (!atomtypeidx.count(smblocc))
         {
-            atomtypeidx.insert(make_pair(smbl, int(atomtypeidx.size())));
+            atomtypeidx.insert(make_pair(smblocc, int(atomtypeidx.size())));
         }
-        int tpidx = atomtypeidx[smbl];
+        int tpidx = atomtypeidx[smblocc];
         mstructure_cache.typeofsite.push_back(tpidx);
         // do nothing if the type has been already cached
         if (tpidx < int(mstructure_cache.sftypeatkq.size()))  continue;
-- 
2.43.0


From 37061c815f3dd33e95653cbdb55b6effc1dac9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 13/34] fix: structures with and without periodicity or
 symmetry always differ

---
 src/diffpy/srreal/AtomicStructureAdapter.cpp   | 6 ++++++
 src/diffpy/srreal/PeriodicStructureAdapter.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/diffpy/srreal/AtomicStructureAdapter.cpp b/src/diffpy/srreal/AtomicStructureAdapter.cpp
index ac5a019..c5f7faf 100644
--- a/src/diffpy/srreal/AtomicStructureAdapter.cpp
+++ b/src/diffpy/srreal/AtomicStructureAdapter.cpp
@@ -23,6 +23,7 @@
 
 #include <diffpy/serialization.ipp>
 #include <diffpy/srreal/AtomicStructureAdapter.hpp>
+#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
 #include <diffpy/srreal/StructureDifference.hpp>
 
 using std::string;
@@ -173,6 +174,11 @@ AtomicStructureAdapter::diff(StructureAdapterConstPtr other) const
     typedef boost::shared_ptr<const class AtomicStructureAdapter> APtr;
     APtr pother = boost::dynamic_pointer_cast<APtr::element_type>(other);
     if (!pother)  return sd;
+    // finite and periodic structures have different bonds for equal atoms
+    const bool periodic0 = dynamic_cast<const PeriodicStructureAdapter*>(this);
+    const bool periodic1 =
+        dynamic_cast<const PeriodicStructureAdapter*>(pother.get());
+    if (periodic0 != periodic1)  return sd;
     // try fast side-by-side comparison
     sd.diffmethod = StructureDifference::Method::SIDEBYSIDE;
     const AtomicStructureAdapter& astru0 = *this;
diff --git a/src/diffpy/srreal/PeriodicStructureAdapter.cpp b/src/diffpy/srreal/PeriodicStructureAdapter.cpp
index 80fdd5f..2510634 100644
--- a/src/diffpy/srreal/PeriodicStructureAdapter.cpp
+++ b/src/diffpy/srreal/PeriodicStructureAdapter.cpp
@@ -25,6 +25,7 @@
 #include <diffpy/srreal/PointsInSphere.hpp>
 #include <diffpy/srreal/StructureDifference.hpp>
 #include <diffpy/srreal/PeriodicStructureAdapter.hpp>
+#include <diffpy/srreal/CrystalStructureAdapter.hpp>
 
 using namespace std;
 
@@ -70,6 +71,11 @@ PeriodicStructureAdapter::diff(StructureAdapterConstPtr other) const
     if (!pother)  return sd;
     assert(pother == sd.stru1);
     if (this->getLattice() != pother->getLattice())  return sd;
+    // symmetry operations make other bonds from equal atoms
+    const bool crystal0 = dynamic_cast<const CrystalStructureAdapter*>(this);
+    const bool crystal1 =
+        dynamic_cast<const CrystalStructureAdapter*>(pother.get());
+    if (crystal0 != crystal1)  return sd;
     sd = this->AtomicStructureAdapter::diff(other);
     return sd;
 }
-- 
2.43.0


From 37c40dfe3b999b02a212f55e69e6537fcc8c4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 14/34] fix: do not compare partial sums in PQEvaluatorCheck

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 20c32f3..8699066 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -433,6 +433,8 @@ PQEvaluatorType PQEvaluatorCheck::typeint() const
 void PQEvaluatorCheck::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
+    // partial sums over different pairs cannot be compared
+    if (this->isParallel())  return this->updateValueCompletely(pq, stru);
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
     // compare final values, some are not sorted until finished.
-- 
2.43.0


From 102218735dc7bc115ca4eae5ac92070aadc208c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 15/34] fix: keep symmetry positions that are used by other
 bond generators

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9b489ca..0a2beb9 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -60,7 +60,13 @@ StructureAdapterPtr CrystalStructureAdapter::clone() const
 
 BaseBondGeneratorPtr CrystalStructureAdapter::createBondGenerator() const
 {
-    this->updateSymmetryPositions();
+    // keep valid symmetry positions, they may be in use by other generators
+    bool cached = (this->countSites() > 0);
+    for (int i = 0; cached && i < this->countSites(); ++i)
+    {
+        cached = this->isSymmetryCached(i);
+    }
+    if (!cached)  this->updateSymmetryPositions();
     BaseBondGeneratorPtr bnds(
             new CrystalStructureBondGenerator(shared_from_this()));
     return bnds;
-- 
2.43.0


From c148d6ffdf4864df3345782e471272995afafff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 16/34] fix: keep the neighbor cache of a restored
 OverlapCalculator valid

The list of neighbors was saved without the flag that it is complete,
the first neighbor query after a restore added all of them again.
---
 src/diffpy/srreal/OverlapCalculator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.hpp b/src/diffpy/srreal/OverlapCalculator.hpp
index 0a6b576..5b9b65d 100644
--- a/src/diffpy/srreal/OverlapCalculator.hpp
+++ b/src/diffpy/srreal/OverlapCalculator.hpp
@@ -125,6 +125,7 @@ class OverlapCalculator : public PairQuantity
             ar & base_object<PairQuantity>(*this);
             ar & matomradiitable;
             ar & mneighborids;
+            ar & mneighborids_cached;
             ar & mstructure_cache.siteradii;
             ar & mstructure_cache.maxseparation;
         }
-- 
2.43.0


From 2b30452fc92d1aa9783977953c9cb00a84e83997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 17/34] fix: forget neighbors cached by OverlapCalculator
 before a merge

A neighbor query between two parallel merges made the later ones
invisible for neighbor and coordination queries.
---
 src/diffpy/srreal/OverlapCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 008addc..a969a4d 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -453,6 +453,9 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     QuantityType pvalue;
     ia >> pvalue;
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
+    // neighbors from queries before this merge are incomplete
+    mneighborids.clear();
+    mneighborids_cached = false;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From 639f269725c55d7bc094f002446b6093185bfdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 18/34] fix: apply rmin in BVSCalculator

The lower bound of the distance range was ignored.
---
 src/diffpy/srreal/BVSCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index 44e5de4..dcc3651 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -155,6 +155,7 @@ void BVSCalculator::resetValue()
 
 void BVSCalculator::configureBondGenerator(BaseBondGenerator& bnds) const
 {
+    bnds.setRmin(this->getRmin());
     bnds.setRmax(this->getRmaxUsed());
 }
 
-- 
2.43.0


From 1728e2721f1f48be902beb9af846608df4f40594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 19/34] fix: count bonds of BVSCalculator with site
 multiplicities

In crystals a bond between sites of different multiplicity was added to
the second site as many times as it occurs at the first one.
---
 src/diffpy/srreal/BVSCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index dcc3651..f61af3d 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -177,7 +177,10 @@ void BVSCalculator::addPairContribution(const BaseBondGenerator& bnds,
     const double& o0 = mstructure->siteOccupancy(bnds.site0());
     const double& o1 = mstructure->siteOccupancy(bnds.site1());
     mvalue[bnds.site0()] += summationscale * pm0 * valencehalf * o1;
-    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0;
+    // convert bond count per site0 to the count per site1
+    const double mscale = double(bnds.multiplicity()) /
+        mstructure->siteMultiplicity(bnds.site1());
+    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0 * mscale;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From ac63b5019b0657d35a6447049010377225d650a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 20/34] fix: make bond valence lookup independent of atom order
 at equal valences

BVParam sorts its atoms by valence, but those of the same valence were
kept as given, so the parameters were found for one order only.
---
 src/diffpy/srreal/BVParam.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVParam.cpp b/src/diffpy/srreal/BVParam.cpp
index 7460170..c16d567 100644
--- a/src/diffpy/srreal/BVParam.cpp
+++ b/src/diffpy/srreal/BVParam.cpp
@@ -46,7 +46,9 @@ BVParam::BVParam(const string& atom0, int valence0,
     mvalence0 = valence0;
     matom1 = atom1;
     mvalence1 = valence1;
-    if (mvalence0 < mvalence1)
+    // use unique order also for atoms of the same valence
+    if (mvalence0 < mvalence1 ||
+            (mvalence0 == mvalence1 && matom1 < matom0))
     {
         swap(matom0, matom1);
         swap(mvalence0, mvalence1);
-- 
2.43.0


From 1b1e549c54b301c5a2ec2f5cd9775c630c69a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 21/34] fix: do not use erased item when
 BVParametersTable::setCustom gets its own entry

---
 src/diffpy/srreal/BVParametersTable.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 896cd46..9b01f2e 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -105,8 +105,10 @@ const BVParam& BVParametersTable::lookup(const string& atom0, int valence0,
 
 void BVParametersTable::setCustom(const BVParam& bp)
 {
-    this->resetCustom(bp);
-    mcustomtable.insert(bp);
+    // make a copy, because bp may be an item of the table that is erased
+    const BVParam bpcopy = bp;
+    this->resetCustom(bpcopy);
+    mcustomtable.insert(bpcopy);
 }
 
 
-- 
2.43.0


From c118ab2b2b82ab268e278521b15848de7c9e3b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 22/34] fix: refuse radii texts with trailing characters after
 a number

---
 src/diffpy/srreal/AtomRadiiTable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/AtomRadiiTable.cpp b/src/diffpy/srreal/AtomRadiiTable.cpp
index 20995f6..ecdb697 100644
--- a/src/diffpy/srreal/AtomRadiiTable.cpp
+++ b/src/diffpy/srreal/AtomRadiiTable.cpp
@@ -74,7 +74,8 @@ void AtomRadiiTable::fromString(const string& s)
         string smbl = w.substr(0, p);
         double value;
         istringstream ssv(w.substr(p + 1));
-        if (!(ssv >> value))
+        // the number must be followed by nothing else
+        if (!(ssv >> value) || ssv.peek() != istringstream::traits_type::eof())
         {
             ostringstream emsg;
             emsg << "Invalid floating point number in '" << w << "'.";
-- 
2.43.0


From 884a0618dda3111b9d90705e8950918c41753771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 23/34] fix: do not register a scattering factor table whose
 alias is refused

---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index b5c4872..e334951 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -39,8 +39,15 @@ bool ScatteringFactorTable::registerThisType() const
 {
     typedef diffpy::HasClassRegistry<ScatteringFactorTable> HCRBase;
     bool rv = this->HCRBase::registerThisType();
-    rv = rv && ScatteringFactorTable::aliasType(
-            this->type(), this->radiationType());
+    try {
+        rv = rv && ScatteringFactorTable::aliasType(
+                this->type(), this->radiationType());
+    }
+    catch (logic_error&) {
+        // do not leave the type registered when its alias is refused
+        ScatteringFactorTable::deregisterType(this->type());
+        throw;
+    }
     return rv;
 }
 
-- 
2.43.0


From 7c6751294083f53d1919bdf16a0353153b6f49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 24/34] fix: refuse zero Qmax of DebyePDFCalculator before
 changing it

DebyePDFCalculator::setQmax(0) raised an exception from the Qstep update
after Qmax and the ticker had been already changed.
---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index 6701067..ace5108 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -142,6 +142,9 @@ const double& DebyePDFCalculator::getQmin() const
 
 void DebyePDFCalculator::setQmax(double qmax)
 {
+    ensureNonNegative("Qmax", qmax);
+    // Qstep is at most Qmax / 4, check it before changing anything
+    ensureEpsilonPositive("Qmax", qmax / 4);
     this->BaseDebyeSum::setQmax(qmax);
     this->updateQstep();
 }
-- 
2.43.0


From bafe081e1837710171935bcd6525051c6d23010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 25/34] fix: do not count the upper bound of the r and Q grids
 due to round-off

Grids are half-open, but for example rmax=15.3 with rstep=0.03 produced
an extra point at rmax, because 15.3 / 0.03 is slightly above 510.
Treat the bound in the same way as pdfutils_rminSteps does.
---
 src/diffpy/srreal/PDFUtils.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFUtils.ipp b/src/diffpy/srreal/PDFUtils.ipp
index 28d62b5..00a87e4 100644
--- a/src/diffpy/srreal/PDFUtils.ipp
+++ b/src/diffpy/srreal/PDFUtils.ipp
@@ -61,9 +61,13 @@ int pdfutils_qminSteps(const T* pdfc)
 template <class T>
 int pdfutils_qmaxSteps(const T* pdfc)
 {
+    using diffpy::mathutils::eps_eq;
     const double dq = pdfc->getQstep();
     if (dq <= 0.0)  return 0;
-    int rv = int(ceil(pdfc->getQmax() / dq));
+    const double qmax = pdfc->getQmax();
+    int rv = int(ceil(qmax / dq));
+    // do not count the upper bound due to round-off
+    if (eps_eq(qmax, (rv - 1) * dq))  rv -= 1;
     return rv;
 }
 
@@ -107,7 +111,10 @@ int pdfutils_rminSteps(const T* pdfc)
 inline
 int pdfutils_rmaxSteps(const double& rmax, const double& rstep)
 {
+    using diffpy::mathutils::eps_eq;
     int rv = int(ceil(rmax / rstep));
+    // do not count the upper bound due to round-off
+    if (eps_eq(rmax, (rv - 1) * rstep))  rv -= 1;
     return rv;
 }
 
-- 
2.43.0


From 50ae321aaaef567f009300f8ac801cd738cb8972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 26/34] fix: return zero from CroppedGaussianProfile of zero or
 negative width

Negative fwhm gave negative values and zero fwhm at zero offset gave NaN,
in contrast with GaussianProfile.
---
 src/diffpy/srreal/CroppedGaussianProfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/CroppedGaussianProfile.cpp b/src/diffpy/srreal/CroppedGaussianProfile.cpp
index aabdba0..41dcf90 100644
--- a/src/diffpy/srreal/CroppedGaussianProfile.cpp
+++ b/src/diffpy/srreal/CroppedGaussianProfile.cpp
@@ -63,6 +63,7 @@ const string& CroppedGaussianProfile::type() const
 
 double CroppedGaussianProfile::operator()(double x, double fwhm) const
 {
+    if (fwhm <= 0)  return 0.0;
     double xrel = x / fwhm;
     double rv = (fabs(xrel) >= mhalfboundrel) ? 0.0 :
         2 * sqrt(M_LN2 / M_PI) / fwhm *
-- 
2.43.0


From 59fecf7145416d9179346b21a303803cd8a2d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 27/34] fix: keep the order of tickers that are restored in
 another process

Each loaded EventTicker was shifted by the difference of the saved and
current global counters, which varies when other events happen between
the loads.  The relative order of the restored tickers was lost and an
evaluated quantity could look newer than the changes made after it.
Keep the saved ticks and advance the global counter instead.
---
 src/diffpy/EventTicker.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/EventTicker.hpp b/src/diffpy/EventTicker.hpp
index 54d11ef..4fbf0a3 100644
--- a/src/diffpy/EventTicker.hpp
+++ b/src/diffpy/EventTicker.hpp
@@ -76,11 +76,9 @@ class EventTicker
         {
             value_type ga;
             ar >> mtick >> ga;
-            if (ga > gtick)
-            {
-                if (ga.first != gtick.first)  mtick.first = mtick.second = 0;
-                else  mtick.second += gtick.second - ga.second;
-            }
+            // keep the order of all restored tickers and make sure that
+            // any later event is newer
+            if (ga > gtick)  gtick = ga;
         }
 
         BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From 8e74953e3bbbbfbc1db2a527961e5bff4ad0c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 28/34] fix: keep no empty or partial standard table after its
 data could not be loaded

---
 src/diffpy/srreal/BVParametersTable.cpp    |  8 ++++--
 src/diffpy/srreal/scatteringfactordata.cpp | 32 +++++++++++++---------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 9b01f2e..464ec98 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -169,7 +169,8 @@ BVParametersTable::getStandardSetOfBVParam() const
     static unique_ptr<SetOfBVParam> the_set;
     if (!the_set)
     {
-        the_set.reset(new SetOfBVParam);
+        // keep partial data out of the_set if loading fails
+        unique_ptr<SetOfBVParam> bvset(new SetOfBVParam);
         string bvparmfile = datapath("bvparm2011sel.cif");
         ifstream fp(bvparmfile.c_str());
         ensureFileOK(bvparmfile, fp);
@@ -188,9 +189,10 @@ BVParametersTable::getStandardSetOfBVParam() const
             if (lnrd.isignored())  continue;
             BVParam bp;
             bp.setFromCifLine(lnrd.line);
-            assert(!the_set->count(bp));
-            the_set->insert(bp);
+            assert(!bvset->count(bp));
+            bvset->insert(bp);
         }
+        the_set = std::move(bvset);
     }
     return *the_set;
 }
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 6439269..f9a13fa 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -133,7 +133,8 @@ const SetOfWKFormulas& getWKFormulasSet()
     using diffpy::validators::ensureFileOK;
     static unique_ptr<SetOfWKFormulas> the_set;
     if (the_set)  return *the_set;
-    the_set.reset(new SetOfWKFormulas);
+    // keep partial data out of the_set if loading fails
+    unique_ptr<SetOfWKFormulas> wkset(new SetOfWKFormulas);
     string wkfile = datapath("f0_WaasKirf.dat");
     ifstream fp(wkfile.c_str());
     ensureFileOK(wkfile, fp);
@@ -172,17 +173,18 @@ const SetOfWKFormulas& getWKFormulasSet()
                 throw line.format_error(wkfile,
                         "Line should contain 11 floating point values.");
             }
-            if (the_set->count(wk))
+            if (wkset->count(wk))
             {
                 string emsg = "Duplicate atom symbol \"";
                 emsg += wk.symbol + "\".";
                 throw line.format_error(wkfile, emsg);
             }
-            the_set->insert(wk);
+            wkset->insert(wk);
             wk.symbol.clear();
         }
     }
-    return getWKFormulasSet();
+    the_set = std::move(wkset);
+    return *the_set;
 }
 
 
@@ -227,7 +229,8 @@ ElectronNumberStorage& getElectronNumberTable()
     typedef ElectronNumberStorage::value_type ENPair;
     if (!entable)
     {
-        entable.reset(new ElectronNumberStorage);
+        // keep partial data out of entable if loading fails
+        unique_ptr<ElectronNumberStorage> table(new ElectronNumberStorage);
         string ionfile = datapath("ionlist.dat");
         ifstream fp0(ionfile.c_str());
         ensureFileOK(ionfile, fp0);
@@ -244,22 +247,23 @@ ElectronNumberStorage& getElectronNumberTable()
                 throw line.format_error(ionfile,
                         "Expected at least 2 columns for (symbol, Z).");
             }
-            entable->insert(ENPair(element, z));
+            table->insert(ENPair(element, z));
             for (int v; fpline >> v;)
             {
                 ostringstream smbl;
                 smbl << element << abs(v) << ((v > 0) ? '+' : '-');
-                entable->insert(ENPair(smbl.str(), z - v));
+                table->insert(ENPair(smbl.str(), z - v));
             }
         }
         const size_t mintablesize = 447;
-        if (entable->size() < mintablesize)
+        if (table->size() < mintablesize)
         {
             ostringstream emsg;
             emsg << "Incomplete file.  Expected " << mintablesize <<
-                " items loaded " << entable->size() << ".";
+                " items loaded " << table->size() << ".";
             throw line.format_error(ionfile, emsg.str());
         }
+        entable = std::move(table);
     }
     return *entable;
 }
@@ -273,9 +277,10 @@ const NeutronBCStorage& getNeutronBCTable()
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
     typedef NeutronBCStorage::value_type BCPair;
-    static unique_ptr<NeutronBCStorage> bctable;
-    if (bctable)  return *bctable;
-    bctable.reset(new NeutronBCStorage);
+    static unique_ptr<NeutronBCStorage> the_table;
+    if (the_table)  return *the_table;
+    // keep partial data out of the_table if loading fails
+    unique_ptr<NeutronBCStorage> bctable(new NeutronBCStorage);
     string nsffile = datapath("nsftable.dat");
     ifstream fp(nsffile.c_str());
     ensureFileOK(nsffile, fp);
@@ -343,7 +348,8 @@ const NeutronBCStorage& getNeutronBCTable()
     bctable->insert(BCPair("n", bctable->at("1-n")));
     bctable->insert(BCPair("D", bctable->at("2-H")));
     bctable->insert(BCPair("T", bctable->at("3-H")));
-    return getNeutronBCTable();
+    the_table = std::move(bctable);
+    return *the_table;
 }
 
 }   // namespace
-- 
2.43.0


From f2b0ab76d7b15dd9e7f9a3e2513a3e7d5f7e6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:43 +0000
Subject: [PATCH 29/34] fix: save partial bonds of a parallel bond calculation

A BondCalculator saved between two merges of parallel results or
after an evaluation of its share lost the pending bonds.
---
 src/diffpy/srreal/BondCalculator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/BondCalculator.hpp b/src/diffpy/srreal/BondCalculator.hpp
index 49c6876..4ce7d50 100644
--- a/src/diffpy/srreal/BondCalculator.hpp
+++ b/src/diffpy/srreal/BondCalculator.hpp
@@ -95,6 +95,11 @@ class BondCalculator : public PairQuantity
             ar & mbonds;
             ar & mfilter_directions;
             ar & mfilter_degrees;
+            // partial results of a parallel run
+            if (version >= 1) {
+                ar & mpopbonds;
+                ar & maddbonds;
+            }
         }
 
         // methods
@@ -131,5 +136,6 @@ QuantityType BondCalculator::operator()(const T& stru)
 // Serialization -------------------------------------------------------------
 
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::BondCalculator)
+BOOST_CLASS_VERSION(diffpy::srreal::BondCalculator, 1)
 
 #endif  // BONDCALCULATOR_HPP_INCLUDED
-- 
2.43.0


From 0ff5cf9ae775a7b6dce76f56d8041ba1e5fde5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:14 +0000
Subject: [PATCH 30/34] fix: keep the lattice when its new base vectors are
 refused

---
 src/diffpy/srreal/Lattice.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.cpp b/src/diffpy/srreal/Lattice.cpp
index 6fd171d..1cf2a88 100644
--- a/src/diffpy/srreal/Lattice.cpp
+++ b/src/diffpy/srreal/Lattice.cpp
@@ -106,10 +106,11 @@ void Lattice::setLatBase(const R3::Vector& va0,
         const R3::Vector& vc0)
 {
     using diffpy::mathutils::acosd;
-    R3::row(mbase, 0) = va0;
-    R3::row(mbase, 1) = vb0;
-    R3::row(mbase, 2) = vc0;
-    double detbase = R3::determinant(mbase);
+    R3::Matrix base0;
+    R3::row(base0, 0) = va0;
+    R3::row(base0, 1) = vb0;
+    R3::row(base0, 2) = vc0;
+    double detbase = R3::determinant(base0);
     if (fabs(detbase) < 1.0e-8)
     {
         throw invalid_argument("base vectors are degenerate");
@@ -118,6 +119,7 @@ void Lattice::setLatBase(const R3::Vector& va0,
     {
         throw invalid_argument("base is not right-handed");
     }
+    mbase = base0;
     mva = va0;
     mvb = vb0;
     mvc = vc0;
-- 
2.43.0


From a436abc694da687dbb9b1fb1a6d33f6ab430e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 31/34] fix: allow base vectors of a lattice in
 Lattice::setLatBase

---
 src/diffpy/srreal/Lattice.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.cpp b/src/diffpy/srreal/Lattice.cpp
index 1cf2a88..9840298 100644
--- a/src/diffpy/srreal/Lattice.cpp
+++ b/src/diffpy/srreal/Lattice.cpp
@@ -120,9 +120,10 @@ void Lattice::setLatBase(const R3::Vector& va0,
         throw invalid_argument("base is not right-handed");
     }
     mbase = base0;
-    mva = va0;
-    mvb = vb0;
-    mvc = vc0;
+    // the arguments may refer to the base vectors of this lattice
+    mva = R3::row(base0, 0);
+    mvb = R3::row(base0, 1);
+    mvc = R3::row(base0, 2);
     ma = R3::norm(mva);
     mb = R3::norm(mvb);
     mc = R3::norm(mvc);
-- 
2.43.0


From ec144e5dea3f1816b5bb3208b558fb04e8e7553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 32/34] fix: avoid NaN angle between parallel vectors in
 Lattice

---
 src/diffpy/srreal/Lattice.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/Lattice.hpp b/src/diffpy/srreal/Lattice.hpp
index 4e9146c..ee04338 100644
--- a/src/diffpy/srreal/Lattice.hpp
+++ b/src/diffpy/srreal/Lattice.hpp
@@ -502,6 +502,9 @@ double Lattice::angledeg(const V& u, const V& v) const
 {
     using diffpy::mathutils::acosd;
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // avoid NaN due to round-off for parallel vectors
+    if (ca > 1.0)  ca = 1.0;
+    if (ca < -1.0)  ca = -1.0;
     return acosd(ca);
 }
 
@@ -510,6 +513,9 @@ template <class V>
 double Lattice::anglerad(const V& u, const V& v) const
 {
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // avoid NaN due to round-off for parallel vectors
+    if (ca > 1.0)  ca = 1.0;
+    if (ca < -1.0)  ca = -1.0;
     return acos(ca);
 }
 
-- 
2.43.0


From aa8c0a2a3779d2be3bf8304489cea8193f4e0233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 33/34] fix: return arcsine from mathutils::asind

---
 src/diffpy/mathutils.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/mathutils.ipp b/src/diffpy/mathutils.ipp
index acf4d24..5782e76 100644
--- a/src/diffpy/mathutils.ipp
+++ b/src/diffpy/mathutils.ipp
@@ -106,7 +106,7 @@ double asind(double x)
             case -2: return -90.0;
         };
     }
-    return acos(x)/M_PI*180.0;
+    return asin(x)/M_PI*180.0;
 }
 
 
-- 
2.43.0


From fa3b8d03f66932918b0b7d1aba59e25bf2014357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:49 +0000
Subject: [PATCH 34/34] fix: calculate zero determinant of singular matrices

---
 src/diffpy/srreal/R3linalg.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.cpp b/src/diffpy/srreal/R3linalg.cpp
index 19a70cc..507301d 100644
--- a/src/diffpy/srreal/R3linalg.cpp
+++ b/src/diffpy/srreal/R3linalg.cpp
@@ -41,20 +41,11 @@ const Matrix& zeromatrix()
 
 double determinant(const Matrix& A)
 {
-    gsl_matrix* gA = gsl_matrix_alloc(Ndim, Ndim);
-    for (int i = 0; i != Ndim; ++i)
-    {
-        for (int j = 0; j != Ndim; ++j)
-        {
-            gsl_matrix_set(gA, i, j, A(i,j));
-        }
-    }
-    gsl_permutation* gP = gsl_permutation_alloc(Ndim);
-    int signum;
-    gsl_linalg_LU_decomp(gA, gP, &signum);
-    double det = gsl_linalg_LU_det(gA, signum);
-    gsl_permutation_free(gP);
-    gsl_matrix_free(gA);
+    // LU decomposition in GSL may give NaN for a singular matrix
+    double det =
+        A(0,0) * (A(1,1) * A(2,2) - A(1,2) * A(2,1)) -
+        A(0,1) * (A(1,0) * A(2,2) - A(1,2) * A(2,0)) +
+        A(0,2) * (A(1,0) * A(2,1) - A(1,1) * A(2,0));
     return det;
 }
 
-- 
2.43.0


From 93eb8a68394c5ea9fcf57bf7cbb90c0acae83ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 01/41] fix: Cell_SPM::validStates reports negative LLI instead
 of throwing, so setStates can roll back

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ce31e03..6e6285c 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -434,7 +434,7 @@ bool Cell_SPM::validStates(bool print)
   if (st.LLI() < 0) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
-    throw 15;
+    range = false;
   }
 
   const double app = 3 * st.ep() / geo.Rp;
-- 
2.43.0


From f949345ecf26bc2a1003ebe6a3538158dfcf9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 02/41] fix: setVoltage_iterative restores the original current
 and reports the refusing status when the voltage cannot be set

---
 src/utility/free_functions.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index a37613c..9ca90d5 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -27,7 +27,8 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   constexpr int maxIteration = 50;
-  double Ia{ su->I() };
+  const double Iold{ su->I() }; //!< to restore if the voltage cannot be reached.
+  double Ia{ Iold };
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
     const auto Va = su->V();
@@ -35,14 +36,21 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
       return Status::Success;
 
     const auto Ib = (Vset > Va) ? Ia - 0.01 * su->Cap() : Ia + 0.01 * su->Cap();
-    su->setCurrent(Ib);
+    if (const auto status = su->setCurrent(Ib); isStatusBad(status)) {
+      su->setCurrent(Iold, false);
+      return status;
+    }
     const auto Vb = su->V();
 
     const double slope = (Ia - Ib) / (Va - Vb);
     Ia = Ib - (Vb - Vset) * slope; //!< False-Position method.
-    su->setCurrent(Ia);
+    if (const auto status = su->setCurrent(Ia); isStatusBad(status)) {
+      su->setCurrent(Iold, false);
+      return status;
+    }
   }
 
+  su->setCurrent(Iold, false);
   return Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
 }
 
-- 
2.43.0


From 4d68c98af1ddea4ffd4ce23f8b61a9a39ad2d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 03/41] fix: Module::getVhigh and getVlow start from a neutral
 value instead of the limits of the whole module

---
 src/modules/Module.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 511d075..5cb2c59 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -15,6 +15,7 @@
 #include <fstream>
 #include <string>
 #include <algorithm>
+#include <limits>
 #include <string_view>
 
 //!< common implementation for all base-modules
@@ -141,7 +142,7 @@ double Module::getVhigh()
 {
   //!< return the voltage of the cell with the highest voltage
   //!< 	note CELL not child SU
-  double Vhigh = Vmin(); // #TODO
+  double Vhigh = 0; //!< not Vmin(), which is the limit of the whole module and can exceed every cell voltage.
   for (const auto &SU : SUs)
     Vhigh = std::max(Vhigh, SU->getVhigh()); //!< will be called recursively to the cell levels
 
@@ -151,7 +152,9 @@ double Module::getVhigh()
 double Module::getVlow()
 {
   //!< return the voltage of the cell with the lowest voltage note CELL not child SU
-  double Vlow = Vmax(); // #TODO
+  if (SUs.empty()) return 0;
+
+  double Vlow = std::numeric_limits<double>::max(); //!< not Vmax(), which is the limit of the whole module.
   for (const auto &SU : SUs)
     Vlow = std::min(Vlow, SU->getVlow()); //!< will be called recursively to the cell levels
 
-- 
2.43.0


From 09f29b25f1e58f6c5a93be3586d5886b210958d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 04/41] fix: Module::setStates gives every member its own old
 states back on a refusal

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 5cb2c59..810c6e9 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -237,7 +237,7 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
                   << ". Restoring the old states, status: " << getStatusMessage(status) << '\n';
 
       for (size_t j = 0; j <= i; j++)
-        SUs[i]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+        SUs[j]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
 
       return status;
     }
-- 
2.43.0


From ae09fdc815bb86cec8f75764a31d580c72c9fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 05/41] fix: Module_s::setCurrent restores the first member too
 when a later member refuses the current

---
 src/modules/Module_s.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 1d8e466..b38c3a3 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -106,7 +106,7 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << getStatusMessage(status) << '\n';
 
 
-      for (int j{ i }; j > 0; j--)
+      for (int j{ i }; j >= 0; j--)
         SUs[j]->setCurrent(Iolds[j], false, false); // #TODO this can start from j{i-1} since probably SUs[i] failed to assign any currents.
 
       return status; // #TODO setCurrent here may be costly.
-- 
2.43.0


From 059f40ef1e92404d8674c902d6dba0b642486672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 06/41] fix: Module_p::setCurrent and setVoltage restore all
 members and return the refusing status when a member refuses

---
 src/modules/Module_p.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 612d1bf..0c4eb75 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -176,7 +176,13 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
 
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] += -0.2 * (Vnew - Va[i]) / 0.001;
-      SUs[i]->setCurrent(Ia[i]);
+      const auto status = SUs[i]->setCurrent(Ia[i]);
+
+      if (isStatusBad(status)) { //!< SU i refuses, give all SUs their old current back.
+        for (size_t j = 0; j < nSU; j++)
+          SUs[j]->setCurrent(Iolds[j], false, false);
+        return status;
+      }
     }
   }
 
@@ -223,7 +229,11 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
     StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (!isStatusOK(StatusNow)) return StatusNow;
+    if (isStatusBad(StatusNow)) {          //!< SU i refuses, give all SUs their old current back.
+      for (size_t j{}; j < nSU; j++)
+        SUs[j]->setCurrent(Iolds[j], false, false);
+      return StatusNow;
+    }
   }
 
   getVall(Va, print);
@@ -247,8 +257,13 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      if (!isStatusSuccessful(SUs[i]->setCurrent(Ia[i])))
-        std::cout << "This should not happen!!" << std::endl; // #TODO
+      const auto status = SUs[i]->setCurrent(Ia[i]);
+
+      if (isStatusBad(status)) { //!< SU i refuses, give all SUs their old current back.
+        for (size_t j = 0; j < nSU; j++)
+          SUs[j]->setCurrent(Iolds[j], false, false);
+        return status;
+      }
     }
     getVall(Va, print);
   }
-- 
2.43.0


From efa918236552567465e33acc9d31ef6647c6bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 07/41] fix: Module_p::setCurrent reports the failure and
 restores the members when the member voltages cannot be equalised

---
 src/modules/Module_p.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 0c4eb75..4e083da 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -268,6 +268,12 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
     getVall(Va, print);
   }
 
+  if (iter == maxIteration) { //!< the voltages could not be equalised, give all SUs their old current back.
+    for (size_t j = 0; j < nSU; j++)
+      SUs[j]->setCurrent(Iolds[j], false, false);
+    StatusNow = Status::RedistributeCurrent_failed;
+  }
+
   //!< voltage of cell i is outside the valid range, but within safety limits
   //!< indicate this happened but continue setting states
   if (isStatusWarning(StatusNow)) { // #TODO maybe we should not need to set current equally immediately?
-- 
2.43.0


From 08587328efdce3b6d43c4b32ce666db2dfd57cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 08/41] fix: Module_p::redistributeCurrent passes checkV on and
 returns the status of a refusing member after restoring all members

---
 src/modules/Module_p.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 4e083da..77f943d 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -103,7 +103,7 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
 {
   // New redistributeCurrent without PI control:
   //!< get cell voltages
-  std::array<double, settings::MODULE_NSUs_MAX> Va, Vb, Ia, Ib; //!< #TODO if we should make them vector.
+  std::array<double, settings::MODULE_NSUs_MAX> Va, Ia, Iolds; //!< #TODO if we should make them vector.
 
   //!< voltage and initial current of each cell //!< #TODO it is a constant value SU.
   constexpr int maxIteration = 2500;
@@ -116,7 +116,7 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
   double Itot{ 0 };
   getVall(Va, print);
   for (size_t i = 0; i < nSU; i++) {
-    Ia[i] = SUs[i]->I();
+    Ia[i] = Iolds[i] = SUs[i]->I();
     Itot += Ia[i]; // We also need to preserve sum of the currents!
   }
 
@@ -136,7 +136,13 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
     // Update the currents based on the difference between mean and individual voltages
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      SUs[i]->setCurrent(Ia[i]);
+      const auto status = SUs[i]->setCurrent(Ia[i], checkV, print);
+
+      if (isStatusBad(status)) { //!< SU i refuses, give all SUs their old current back.
+        for (size_t j = 0; j < nSU; j++)
+          SUs[j]->setCurrent(Iolds[j], false, false);
+        return status;
+      }
     }
 
     getVall(Va, print);
-- 
2.43.0


From 444752791ff15a666563fff02e2d967ee51d0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 09/41] fix: StorageUnit::setBlockDegAndTherm is virtual so
 that a pack inside a pack blocks its own members too

---
 src/StorageUnit.hpp    | 2 +-
 src/modules/Module.hpp | 2 +-
 src/system/Battery.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 2bd8e99..0e0f373 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -61,7 +61,7 @@ public:
 
   virtual void getStates(getStates_t s) = 0;       //!< returns one long array with the states
   virtual viewStates_t viewStates() { return {}; } //!< Only for cells to see individual states.
-  void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
+  virtual void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
   virtual void setParent(StorageUnit *p) { parent = p; }                             //!< set the parent
   virtual Status setCurrent(double Inew, bool checkV = true, bool print = true) = 0; //
   virtual Status setVoltage(double Vnew, bool checkI = true, bool print = true)
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 731d1f7..cf04b5f 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -170,7 +170,7 @@ public:
 #endif
   }
 
-  void setBlockDegAndTherm(bool block)
+  void setBlockDegAndTherm(bool block) override
   {
     for (auto &SU : SUs)
       SU->setBlockDegAndTherm(block);
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 12673f4..507eed6 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -54,7 +54,7 @@ public:
   Module *getCells() { return cells.get(); }
   //!< int getNstates() { return cells->getNstates() + 1; } //!< +1 for the temperature of this battery
   void getStates(getStates_t &s) override; //!< returns one long array with the states
-  void setBlockDegAndTherm(bool block);
+  void setBlockDegAndTherm(bool block) override;
 
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override
   {
-- 
2.43.0


From 6944dc77f0b06307ac8654ce55106fdd6a819391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 10/41] fix: Battery::setStates keeps the temperature on a
 refusal and reads and consumes its own entry of the state vector

---
 src/system/Battery.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 0581721..612be72 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -105,8 +105,11 @@ void Battery::setBlockDegAndTherm(bool block)
 
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
-  auto status = cells->setStates(s, checkStates, print);
-  setT(s.back()); //!< #TODO probably here we need to check?
+  const auto status = cells->setStates(s, checkStates, print);
+  if (isStatusBad(status)) return status; //!< refused, nothing has changed.
+
+  setT(s[0]);                //!< the cells removed their states, the next one is the battery temperature.
+  s = s.last(s.size() - 1); //!< Remove the state of this battery from the span.
   return status;
 }
 
-- 
2.43.0


From 8f9a4b5b2871a7821360fd0d850f353160419164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 11/41] fix: copies of packs own their members, derived cells
 copy as their own kind, Deep_ptr can be copy assigned

---
 src/cells/Cell_SPM/Cell_KokamNMC.hpp |  2 ++
 src/modules/Module.hpp               | 10 ++++++++++
 src/modules/Module_p.hpp             |  2 +-
 src/modules/Module_s.hpp             |  2 +-
 src/system/Battery.hpp               |  7 ++++++-
 src/types/Deep_ptr.hpp               |  2 +-
 6 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_KokamNMC.hpp b/src/cells/Cell_SPM/Cell_KokamNMC.hpp
index af1750f..cbc9f7b 100644
--- a/src/cells/Cell_SPM/Cell_KokamNMC.hpp
+++ b/src/cells/Cell_SPM/Cell_KokamNMC.hpp
@@ -28,6 +28,8 @@ public:
   //!< constructors
   Cell_KokamNMC(Model_SPM *, int verbosei);
   Cell_KokamNMC(Model_SPM *, DEG_ID &, int verbosei);
+
+  Cell_KokamNMC *copy() override { return new Cell_KokamNMC(*this); }
 };
 
 
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index cf04b5f..508cac5 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -69,6 +69,16 @@ protected:
     return Ncells = transform_sum(SUs, free::get_Ncells<SU_t>);
   }
 
+  template <typename Module_t>
+  static Module_t *copyModule(const Module_t &original) //!< copy of a module, which owns its own members.
+  {
+    auto *cpy = new Module_t(original);
+    for (auto &SU : cpy->SUs)
+      SU->setParent(cpy);
+
+    return cpy;
+  }
+
   double thermalModel_cell();
   double thermalModel_coupled(int Nneighbours, double Tneighbours[], double Kneighbours[], double Aneighb[], double tim);
 
diff --git a/src/modules/Module_p.hpp b/src/modules/Module_p.hpp
index 00a187b..72979da 100644
--- a/src/modules/Module_p.hpp
+++ b/src/modules/Module_p.hpp
@@ -44,6 +44,6 @@ public:
 
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_p *copy() override { return new Module_p(*this); }
+  Module_p *copy() override { return copyModule(*this); }
 };
 } // namespace slide
\ No newline at end of file
diff --git a/src/modules/Module_s.hpp b/src/modules/Module_s.hpp
index 2f481c2..eb3b46e 100644
--- a/src/modules/Module_s.hpp
+++ b/src/modules/Module_s.hpp
@@ -45,6 +45,6 @@ public:
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override; //!< set a module current
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_s *copy() override { return new Module_s(*this); }
+  Module_s *copy() override { return copyModule(*this); }
 };
 } // namespace slide
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 507eed6..69f1a58 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -92,7 +92,12 @@ public:
   void storeData() override;
   void writeData(const std::string &prefix) override;
 
-  Battery *copy() override { return new Battery(*this); }
+  Battery *copy() override
+  {
+    auto *cpy = new Battery(*this);
+    if (cpy->cells != nullptr) cpy->cells->setParent(cpy);
+    return cpy;
+  }
 };
 
 } // namespace slide
diff --git a/src/types/Deep_ptr.hpp b/src/types/Deep_ptr.hpp
index 2b7d8ed..d14f9fc 100644
--- a/src/types/Deep_ptr.hpp
+++ b/src/types/Deep_ptr.hpp
@@ -58,7 +58,7 @@ public:
   /// Copy assignment operator
   Deep_ptr &operator=(const Deep_ptr &other)
   {
-    if (this != &other) ptr = other ? other->copy() : nullptr;
+    if (this != &other) ptr.reset(other ? other->copy() : nullptr);
 
     return *this;
   }
-- 
2.43.0


From e01278758f49ace2c847d8206a1669510e4f9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 12/41] fix: Cell_SPM forgets its remembered voltage when
 temperature, ageing, characterisation, geometry or OCV curves change

---
 src/cells/Cell_SPM/Cell_SPM.cpp         | 2 ++
 src/cells/Cell_SPM/Cell_SPM.hpp         | 2 ++
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp  | 2 ++
 src/cells/Cell_SPM/Cell_SPM_fitting.cpp | 3 +++
 4 files changed, 9 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 6e6285c..ea49b7d 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -554,6 +554,8 @@ void Cell_SPM::setT(double Ti)
 
   st.T() = Ti; //!< #TODO if we need to check if we are in limits.  if T is in limits.
 
+  Vcell_valid = false; //!< the voltage depends on the temperature.
+
   //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
   sparam.s_dai_update = false;
   sparam.s_lares_update = false;
diff --git a/src/cells/Cell_SPM/Cell_SPM.hpp b/src/cells/Cell_SPM/Cell_SPM.hpp
index b2f18c4..02e0597 100644
--- a/src/cells/Cell_SPM/Cell_SPM.hpp
+++ b/src/cells/Cell_SPM/Cell_SPM.hpp
@@ -238,6 +238,7 @@ public:
   void overwriteCharacterisationStates(double Dpi, double Dni, double ri)
   {
     //!< Overwrite both current and initial states.
+    Vcell_valid = false;
     st.overwriteCharacterisationStates(Dpi, Dni, ri);
     s_ini.overwriteCharacterisationStates(Dpi, Dni, ri);
   }
@@ -245,6 +246,7 @@ public:
   void overwriteGeometricStates(double thickpi, double thickni, double epi, double eni, double api, double ani)
   {
     //!< Overwrite both current and initial states.
+    Vcell_valid = false;
     st.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
     s_ini.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
   }
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 6239d8b..3227071 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -358,6 +358,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     //!< degradation accumulation
     for (size_t i = 0; i < st.size(); i++)
       st[i] += d_st[i] * dt * nstep;
+
+    Vcell_valid = false; //!< the degradation changed the resistance and the concentrations.
   }
 }
 
diff --git a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
index e7c32e6..6faab12 100644
--- a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
@@ -219,6 +219,7 @@ void Cell_SPM::setOCVcurve(const std::string &namepos, const std::string &namene
    */
 
   //!< Store the OCV curves
+  Vcell_valid = false;
   try {
     OCV_curves.OCV_neg.setCurve(PathVar::data / nameneg); //!< the OCV curve of the anode, the first column gives the lithium fractions (increasing), the 2nd column gives the OCV vs li/li+
     OCV_curves.OCV_pos.setCurve(PathVar::data / namepos);
@@ -246,6 +247,7 @@ void Cell_SPM::setInitialConcentration(double cmaxp, double cmaxn, double lifrac
   //!< Store the maximum concentrations
   Cmaxpos = cmaxp;
   Cmaxneg = cmaxn;
+  Vcell_valid = false; //!< also if the concentrations below are refused.
 
   //!< set the concentration
   try {
@@ -301,6 +303,7 @@ void Cell_SPM::setCharacterisationParam(double Dp, double Dn, double kpi, double
   //!< store the rate constants in the cell
   kp = kpi;
   kn = kni;
+  Vcell_valid = false;
 
   //!< calculate the specific electrode resistance from the total DC resistance
   double r = Rdc * ((st.thickp() * st.ap() * geo.elec_surf + st.thickn() * st.an() * geo.elec_surf) / 2);
-- 
2.43.0


From 8dcfecbf910aec2cd483283ca3b3894f3cf16a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 13/41] fix: Module::checkVoltage reports a voltage that cannot
 be computed instead of ending the program

---
 src/modules/Module.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 810c6e9..5b9c5b2 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -125,7 +125,12 @@ Status Module::checkVoltage(double &v, bool print) noexcept
   //!< const bool printNonCrit = print && (settings::printBool::printNonCrit); //!< print if the (global) verbose-setting is above the threshold
 
   //!< check the voltage of the module
-  v = V(); // -> Hey we dont need to calculate this anymore.
+  try {
+    v = V(); // -> Hey we dont need to calculate this anymore.
+  } catch (...) { //!< this function is noexcept, so an error of a member may not leave it.
+    v = 0;
+    return Status::V_not_calculated;
+  }
   //!< #TODO here was a not useful chuck of code for repeated checking.
   //!< We may have constant limits for module voltage.
 
-- 
2.43.0


From 105c9fafaf2f6ac583891d107c9040d3fb04d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 14/41] fix: Module::setSUs names the owner of the refused
 unit, the module itself may have no parent

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 5b9c5b2..180f3e4 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -85,7 +85,7 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
     {
       if (verb)
         std::cerr << "ERROR in Module::setCells, SU " << i << ", already has a parent "
-                  << "with full ID: " << parent->getFullID() << ". Throwing 10.\n";
+                  << "with full ID: " << p->getFullID() << ". Throwing 10.\n";
       std::cout << "Throwed in File: " << __FILE__ << ", line: " << __LINE__ << '\n';
       throw 10;
     }
-- 
2.43.0


From ac30e8551b9d3976ff665907b9cd5cd2cef26ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 15/41] fix: setStates of a cell refuses a state vector that is
 too short instead of reading beyond its end

---
 src/cells/Cell_ECM/Cell_ECM.hpp | 2 ++
 src/cells/Cell_SPM/Cell_SPM.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cells/Cell_ECM/Cell_ECM.hpp b/src/cells/Cell_ECM/Cell_ECM.hpp
index 0ee305b..c9c87ce 100644
--- a/src/cells/Cell_ECM/Cell_ECM.hpp
+++ b/src/cells/Cell_ECM/Cell_ECM.hpp
@@ -290,6 +290,8 @@ inline Status Cell_ECM<N_RC>::setStates(setStates_t s, bool checkV, bool print)
 {
   /*
    */
+  if (s.size() < st.size()) return Status::Invalid_states; //!< too short, reading it would go beyond its end.
+
   const auto st_old = st; //!< Back-up values.
 
   std::copy(s.begin(), s.begin() + st.size(), st.begin()); //!< Copy states.
diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ea49b7d..d29646d 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -358,6 +358,8 @@ Status Cell_SPM::setStates(setStates_t s, bool checkV, bool print)
    * Returns Status see Status.hpp for the meaning.
    */
 
+  if (s.size() < st.size()) return Status::Invalid_states; //!< too short, reading it would go beyond its end.
+
   auto st_old = st; //!< Back-up values.
   auto Vcell_valid_prev = Vcell_valid;
 
-- 
2.43.0


From cc807c6ac9eec8a7beff5d6c2adf10eb49e0ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 16/41] fix: run uses at least one worker and passes an error
 of a worker on to the caller instead of ending the program

---
 src/utility/parallelisation.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/utility/parallelisation.hpp b/src/utility/parallelisation.hpp
index 42ef21e..a27a8a7 100644
--- a/src/utility/parallelisation.hpp
+++ b/src/utility/parallelisation.hpp
@@ -12,6 +12,8 @@
 
 #include "../settings/settings.hpp"
 
+#include <algorithm>
+#include <exception>
 #include <thread>
 #include <vector>
 
@@ -35,7 +37,10 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
       if (numMaxParallelWorkers < 1)
         numMaxParallelWorkers = std::thread::hardware_concurrency();
 
-      const unsigned int N_th_max = std::min(numMaxParallelWorkers, std::thread::hardware_concurrency());
+      //!< at least one worker, hardware_concurrency() is 0 if it is not known.
+      const unsigned int N_th_max = std::max(1u, std::min(numMaxParallelWorkers, std::thread::hardware_concurrency()));
+
+      std::vector<std::exception_ptr> errors(N_th_max); //!< error of every worker, if any.
 
       std::vector<std::thread> threads;
       threads.reserve(N_th_max);
@@ -44,13 +49,22 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
       {
         //!< Multi threaded simul:
 
-        threads.emplace_back(task_par, i_begin, i_end, N_th_max);
+        threads.emplace_back([&, i_begin] {
+          try {
+            task_par(i_begin, i_end, N_th_max);
+          } catch (...) { //!< an error which leaves a thread ends the program.
+            errors[i_begin] = std::current_exception();
+          }
+        });
       }
 
       for (auto &th : threads) {
         if (th.joinable())
           th.join();
       }
+
+      for (const auto &error : errors)
+        if (error) std::rethrow_exception(error);
     }
   } else {
     task_par(0, i_end, 1);
-- 
2.43.0


From 017fc5e69c804fe8557a60c139dfa36dd37ca5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 17/41] fix: Cycler::rest counts every step and reports a
 current that cannot be set to zero at the end

---
 src/procedures/Cycler.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7aab5d5..0e2a950 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -133,6 +133,7 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
 
     //!< Increase the throughput
     ttot += dti * nOnce;
+    th.time() += dti * nOnce; //!< there is no throughput during resting
     idat += nOnce;
 
     //!< Store a data point if needed
@@ -159,7 +160,7 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
   //!< check why we stopped the time integration
   if (ttot >= tlim && std::abs(ttot - tlim) < 1) {
     succ = su->setCurrent(0, false, true); // #TODO do it one last time otherwise after timeStep_CC currents change!
-    succ = Status::ReachedTimeLimit;
+    if (!isStatusBad(succ)) succ = Status::ReachedTimeLimit;
 
   } else {
     if constexpr (settings::printBool::printCrit)
@@ -170,8 +171,6 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
 
   if (boolStoreData) storeData();
 
-  th.time() += ttot; //!< there is no throughput during resting
-
   return succ;
 }
 
-- 
2.43.0


From 92afb38bb15fbbcaa14154e074e532c9a351e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 18/41] fix: Cycler::setCurrent reports a current that could
 not be set, and the discharge limit only when discharging

---
 src/procedures/Cycler.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 0e2a950..1747f4b 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -191,10 +191,10 @@ Status Cycler::setCurrent(double I, double vlim)
   //!< Try setting the current
   const auto status = su->setCurrent(I, checkCellV, settings::printBool::printNonCrit); //!< throws error if checkCellv == true and voltage out of range of a cell
 
-  if (isStatusVoltageLimitsViolated(status)) {
+  if (isStatusVoltageLimitsViolated(status) || isStatusBad(status)) { //!< voltage limits violated, or the current could not be set at all
     if constexpr (settings::printBool::printNonCrit)
       std::cout << "Error caught in Cycler::setCurrent of SU " << su->getFullID() << " when trying to set a current of "
-                << I << " A. This current cannot be set without violating the voltage limits of one of the cells" << '\n';
+                << I << " A: " << getStatusMessage(status) << '\n';
     su->setCurrent(Iini, false, false); //!< reset the initial current (without checking voltage limits again)
     return status;
   }
@@ -203,9 +203,8 @@ Status Cycler::setCurrent(double I, double vlim)
   //!< check if the voltage limit was exceeded while setting the current
   if (I < 0 && Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
     return Status::ReachedVoltageLimit;
-  else {
-    if (Vini >= vlim && Vnew < vlim) return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
-  }
+  if (I > 0 && Vini >= vlim && Vnew < vlim) //!< discharging -> exceeded if Vini > vlim & Vnew < vlim
+    return Status::ReachedVoltageLimit;     //!< #TODO why Vini check?
 
   return Status::Success; //!< if none of the above, we could set the current without exceeding any voltage limit
 }
-- 
2.43.0


From 2a70418ceea0ffc4c3c773ab1e3307abb15a7e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 19/41] fix: Module_p::setCurrent checks the voltages of its
 members only when asked to

---
 src/modules/Module_p.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 77f943d..c63fa25 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -234,8 +234,8 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
-    StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (isStatusBad(StatusNow)) {          //!< SU i refuses, give all SUs their old current back.
+    StatusNow = SUs[i]->setCurrent(Ia[i], checkV, print); // #TODO worse status should be here.
+    if (isStatusBad(StatusNow)) {                         //!< SU i refuses, give all SUs their old current back.
       for (size_t j{}; j < nSU; j++)
         SUs[j]->setCurrent(Iolds[j], false, false);
       return StatusNow;
@@ -263,7 +263,7 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      const auto status = SUs[i]->setCurrent(Ia[i]);
+      const auto status = SUs[i]->setCurrent(Ia[i], checkV, print);
 
       if (isStatusBad(status)) { //!< SU i refuses, give all SUs their old current back.
         for (size_t j = 0; j < nSU; j++)
-- 
2.43.0


From 0abcf49fbead42c4f28b4fb89073de08c2a25cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 20/41] fix: Cycler::CC stops when the current cannot be set
 and counts the last step also when its voltage is refused

---
 src/procedures/Cycler.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 1747f4b..490fa09 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -263,7 +263,8 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
 
   //!< apply current
   while (ttot < tlim) {
-    auto succ = setCurrent(I, vlim); // #TODO this was not here I added to get nice results from
+    succ = setCurrent(I, vlim);          // #TODO this was not here I added to get nice results from
+    if (isStatusBad(succ)) return succ; //!< stop if the current cannot be set any more
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (nOnce * dti > tlim - ttot) //!< we are close to the total time -> set nOnce to 1
       nOnce = 1;
@@ -282,9 +283,17 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       return Status::timeStep_CC_failed;
     }
 
+    //!< Increase the throughput
+    const auto dt_now = dti * nOnce;
+    th.time() += dt_now;
+    ttot += dt_now;
+    th.Ah() += std::abs(I) * dt_now / 3600.0;
+    idat += nOnce;
+
     //!< get the voltage
     if (diagnostic) {
       const auto status = su->checkVoltage(vi, true);
+      th.Wh() += std::abs(I) * dt_now / 3600 * vi;
       if (!isStatusSuccessful(status)) { //!< in diagnostic mode and the voltage of one of the cells was violated
         if constexpr (settings::printBool::printNonCrit)
           std::cout << "in Cycler::CC, the voltage of a cell became invalid in time step when the total voltage was "
@@ -294,6 +303,7 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
     } else {
       const auto v_prev = vi;
       vi = su->V();
+      th.Wh() += std::abs(I) * dt_now / 3600 * vi;
       if (vi <= 0) {
         if constexpr (settings::printBool::printNonCrit)
           std::cout << "error in Cycler::CC in time step when getting the voltage. The previous voltage was "
@@ -302,15 +312,6 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       }
     }
 
-    auto myVnow = su->V();
-    //!< Increase the throughput
-    const auto dt_now = dti * nOnce;
-    th.time() += dt_now;
-    ttot += dt_now;
-    th.Ah() += std::abs(I) * dt_now / 3600.0;
-    idat += nOnce;
-    th.Wh() += std::abs(I) * dt_now / 3600 * vi;
-
     //!< Store a data point if needed
     if (boolStoreData && idat >= ndt_data) {
       storeData();
-- 
2.43.0


From fe7099d4cc8c908d46198609ea37a4072f133e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 21/41] fix: Cycler::CV counts the time of its steps, stops
 when the voltage cannot be set and ends at the time limit despite rounding

---
 src/procedures/Cycler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 490fa09..05dd9b4 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -440,11 +440,12 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   bool reach;
 
   for (size_t i = 0; i < nt; i++) {
-    su->setVoltage(Vset);
+    const auto status = su->setVoltage(Vset);
+    if (isStatusBad(status)) return status; //!< stop if the voltage cannot be set
 
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (i + 1 == nt)
-      dti = tlim - dt * (nt - 1);
+      dti = std::max(tlim - ttot, 0.0); //!< such that ttot is tlim, whatever the rounding errors until now
 
     //!< take a time step
     try {
@@ -460,6 +461,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
     const auto dAh = std::abs(su->I() * dti / 3600.0);
     vi = su->V();
     ttot += dti;
+    th.time() += dti;
     th.Ah() += dAh;
     th.Wh() += dAh * vi;
 
-- 
2.43.0


From caf03bf44750868e9762a1fed9213928d3e6956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 22/41] fix: Cycler::CCCV adds to the throughput of the caller
 instead of overwriting it

---
 src/procedures/Cycler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 05dd9b4..1603703 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -579,9 +579,9 @@ Status Cycler::CCCV_with_tlim(double I, double Vset, double Ilim, double tlim, d
       std::cout << "Cycler::CCCV could not complete the CV phase, terminated with "
                 << getStatusMessage(succ) << '\n';
 
-  th.time() = th1.time() + th2.time();
-  th.Ah() = th1.Ah() + th2.Ah();
-  th.Wh() = th1.Wh() + th2.Wh();
+  th.time() += th1.time() + th2.time();
+  th.Ah() += th1.Ah() + th2.Ah();
+  th.Wh() += th1.Wh() + th2.Wh();
 
   return succ;
 }
-- 
2.43.0


From 3455b3f883b616d4423007da377c9dd05659a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:20 +0000
Subject: [PATCH 23/41] fix: Cycler::testCapacity restores the states of the
 storage unit also after a complete test and after an error

---
 src/procedures/Cycler.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 1603703..cd0cdf7 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -604,7 +604,13 @@ double Cycler::testCapacity(double &Ah, double &ttot)
 
   su->getStates(sini);
 
-  std::span<double> sini_span{ sini };
+  auto restoreStates = [this, &sini]() { //!< put the SU back in the state it had before the test
+    std::span<double> sini_span{ sini };
+    const auto status = su->setStates(sini_span, false, true);
+    if (isStatusBad(status))
+      std::cerr << "Error in Cycler::testCapacity, the original states of " << su->getFullID()
+                << " cannot be restored: " << getStatusMessage(status) << '\n';
+  };
   //!< #TODO once we introduce a different temperature, set T to Tref
 
   //!< *********************************************************** 2 full charge / discharge cycle ***********************************************************************
@@ -612,7 +618,13 @@ double Cycler::testCapacity(double &Ah, double &ttot)
   //!< fully charge and discharge the cell
   const auto cap = su->Cap();
   //!< fully charge battery to its specified maximum voltage )
-  auto status = CC(-crate * cap, su->Vmax(), TIME_INF, dt, 0, th1);
+  Status status{ Status::Unknown_problem };
+  try {
+    status = CC(-crate * cap, su->Vmax(), TIME_INF, dt, 0, th1);
+  } catch (...) {
+    restoreStates();
+    throw;
+  }
   ttot += th1.time();
 
   if (status != Status::ReachedVoltageLimit) {
@@ -621,13 +633,18 @@ double Cycler::testCapacity(double &Ah, double &ttot)
                 << getStatusMessage(status) << ".\n";
 
     //!< restore the original states
-    su->setStates(sini_span, false, true);
+    restoreStates();
 
     return 0;
   }
 
   //!< fully discharge the battery
-  status = CC(crate * cap, su->Vmin(), TIME_INF, dt, 0, th2);
+  try {
+    status = CC(crate * cap, su->Vmin(), TIME_INF, dt, 0, th2);
+  } catch (...) {
+    restoreStates();
+    throw;
+  }
   ttot += th2.time();
 
   if (status != Status::ReachedVoltageLimit) {
@@ -636,10 +653,12 @@ double Cycler::testCapacity(double &Ah, double &ttot)
                 << getStatusMessage(status) << ".\n";
 
     //!< restore the original states
-    su->setStates(sini_span, false, true);
+    restoreStates();
     return 0;
   }
 
+  restoreStates();
+
   Ah = th1.Ah() + th2.Ah();
   return th2.Ah();
 }
-- 
2.43.0


From ef171e58c91b901bfbe4625b276bff2be445482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 24/41] fix: Procedure balances every kind of cell, also inside
 batteries, looks at the status of the balancing and always unblocks
 degradation

---
 src/procedures/Procedure.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6eaf862..2763ce6 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -326,10 +326,16 @@ void Procedure::balanceCheckup(StorageUnit *su, bool balance, bool checkup, doub
   if (balance) {
     if (!unitTest) std::cout << "Starting balancing.\n";
     su->setBlockDegAndTherm(true);
-    const auto status = rebalance(su);
+    Status status{ Status::Unknown_problem };
+    try {
+      status = rebalance(su);
+    } catch (...) {
+      su->setBlockDegAndTherm(false); //!< ensure degradation is always turned on
+      throw;
+    }
     if (!unitTest) std::cout << "Finish balancing.\n";
 
-    if (isStatusBad(status))
+    if (isStatusBad(status) || status == Status::Invalid_Vset)
       std::cout << "Error in CycleAge when balancing the cells, skipping it.\n";
 
     su->setBlockDegAndTherm(false); //!< ensure degradation is always turned on
@@ -382,11 +388,13 @@ Status Procedure::rebalance(StorageUnit *su)
   constexpr int ndata = 0;
 
   //!< if it is a module, recursively call this function on all children to rebalance the cells
-  if (auto m = dynamic_cast<Module *>(su)) {
-    for (auto &cs_k : m->getSUs()) {
+  if (auto b = dynamic_cast<Battery *>(su)) //!< if it is a battery, rebalance the cells in its module
+    return rebalance(b->getCells());
+  else if (auto m = dynamic_cast<Module *>(su)) {
+    for (size_t k = 0; k < m->getSUs().size(); k++) {
+      auto &cs_k = m->getSUs()[k];
       const auto status = rebalance(cs_k.get());
       if (!isStatusSuccessful(status)) {
-        const auto k = std::distance(m->getSUs()[0].get(), cs_k.get());
         std::cout << "Error when rebalancing of SU " << k << " whose ID = "
                   << cs_k->getFullID() << ", error " << getStatusMessage(status) << ".\n";
 
@@ -394,14 +402,15 @@ Status Procedure::rebalance(StorageUnit *su)
       }
     }
 
-  } else if (typeid(*su) == typeid(Cell_SPM)) { // #TODO why only SPM?
+  } else if (dynamic_cast<Cell *>(su)) { //!< every kind of cell
     const double Iset = su->Cap() * Cset;
     const double Ilim = su->Cap() * Clim;
     ThroughputData th{};
-    Cycler(su).CCCV(Iset, balance_voltage, Ilim, dt, ndata, th); //!< #TODO if we can do it without a cycler since it initialises a string?
-    auto status = su->setCurrent(0, true, true);                 //!< set the current of the cell to 0
+    const auto statusCCCV = Cycler(su).CCCV(Iset, balance_voltage, Ilim, dt, ndata, th); //!< #TODO if we can do it without a cycler since it initialises a string?
+    const auto status = su->setCurrent(0, true, true);                                   //!< set the current of the cell to 0
 
-    if (isStatusBad(status)) return status; //!< #TODO -> we are doing this because previously setCurrent was throwing.
+    if (isStatusBad(statusCCCV) || statusCCCV == Status::Invalid_Vset) return statusCCCV; //!< the cell could not be balanced
+    if (isStatusBad(status)) return status;                                               //!< #TODO -> we are doing this because previously setCurrent was throwing.
   }
 
   return Status::Success;
-- 
2.43.0


From 6ee4e43c8281121d504d88b051de9f9e62334886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 25/41] fix: Procedure reports failed (dis)charges of the use
 case and before a check-up

---
 src/procedures/Procedure.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 2763ce6..6220a26 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -206,8 +206,10 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
       }
 
       //!< 2) 1C charge
-      cyc.CC(-su->Cap(), su->Vmax(), TIME_INF, dt, ndata, th); //!< #TODO should have a condition.
+      succ = cyc.CC(-su->Cap(), su->Vmax(), TIME_INF, dt, ndata, th); //!< #TODO should have a condition.
       storeThroughput(th, su);
+      if (isStatusBad(succ))
+        std::cout << "Error in useAge when 1C charge in cycle " << i << ", continue as normal. " << getStatusMessage(succ) << '\n';
 
       succ = cyc.rest(1 * 3600, dt, ndata, th); //!< 3) 1h rest
       storeThroughput(th, su);
@@ -216,8 +218,10 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
         break;
       }
 
-      cyc.CC(su->Cap(), su->Vmin(), TIME_INF, dt, ndata, th); //!< 4) 1C discharge
-      storeThroughput(th, su);                                // #TODO sometimes we don't check limits.
+      succ = cyc.CC(su->Cap(), su->Vmin(), TIME_INF, dt, ndata, th); //!< 4) 1C discharge
+      storeThroughput(th, su);                                       // #TODO sometimes we don't check limits.
+      if (isStatusBad(succ))
+        std::cout << "Error in useAge when 1C discharge in cycle " << i << ", continue as normal. " << getStatusMessage(succ) << '\n';
 
       succ = cyc.rest(4 * 3600, dt, ndata, th); //!< 5) 4h rest
       storeThroughput(th, su);
@@ -226,8 +230,10 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
         break;
       }
 
-      cyc.CC(-su->Cap() / 2.0, su->Vmax(), TIME_INF, dt, ndata, th); //!< 6) 0.5C charge
+      succ = cyc.CC(-su->Cap() / 2.0, su->Vmax(), TIME_INF, dt, ndata, th); //!< 6) 0.5C charge
       storeThroughput(th, su);
+      if (isStatusBad(succ))
+        std::cout << "Error in useAge when 0.5C charge in cycle " << i << ", continue as normal. " << getStatusMessage(succ) << '\n';
 
       succ = cyc.rest(4 * 3600, dt, ndata, th); //!< 7) 4h rest
       storeThroughput(th, su);
@@ -526,7 +532,10 @@ void Procedure::checkUp_prep(StorageUnit *su)
 
   //!< charge to middle voltage, stop when the voltage of one cell has reached the maximum or minimum
   ThroughputData th{};
-  Cycler(su, "pre-checkUp").setDiagnostic(true).CC(I, V, TIME_INF, dt, ndata, th);
+  const auto status = Cycler(su, "pre-checkUp").setDiagnostic(true).CC(I, V, TIME_INF, dt, ndata, th);
+  if (isStatusBad(status))
+    std::cout << "Error in Procedure::checkUp_prep when charging to the middle voltage, continue with the check-up. "
+              << getStatusMessage(status) << '\n';
 }
 
 void Procedure::checkMod(StorageUnit *su)
-- 
2.43.0


From 1021f52cbb8ddbccf232c9c0cb65edb80a0c64ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 26/41] fix: Procedure writes check-ups to the results folder,
 with headings for the columns, and keeps the throughput if its file cannot be
 opened

---
 src/procedures/Procedure.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6220a26..0452fdc 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -479,10 +479,15 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
 
   //!< If this is the first checkup, start by writing the cell IDs and cell-to-cell parameters
   //!< else write the cumulative charge throughput
-  file.open(name, std::ios_base::app); //!< open from scratch, clear whatever was in the file before
+  if (nrCycle == 0) {
+    file.open(PathVar::results / name); //!< open from scratch, clear whatever was in the file before
+    file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber,";
+    file << "time [s],Current throughput [Ah],Energy throughput [Wh],Capacity [Ah],States\n";
+  } else
+    file.open(PathVar::results / name, std::ios_base::app); //!< append to the existing file
 
-  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber";
-  file << "time [s],Current throughput [Ah],Energy throughput [Wh],Capacity [Ah],States\n";
+  if (!file.is_open())
+    std::cerr << "Error in Procedure::checkUp, the file " << PathVar::results / name << " is not open!\n";
 
   for (auto &cell : cells) {
     file << cell->getFullID() << ','; //!< first column is cell IDs
@@ -504,8 +509,7 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
     for (size_t i{ start }; i < st_view.size(); i++) //!< loop for each state variable (rows)
       file << ',' << st_view[i];
 
-    file << '\n'
-         << '\n';
+    file << '\n';
   }
 
   //!< close the file
@@ -552,13 +556,17 @@ void Procedure::checkMod(StorageUnit *su)
   std::ofstream file_overall(PathVar::results / name_overall); //!< open from scratch, clear whatever was in the file before
   std::ofstream file_histograms(PathVar::results / name_hist); //!< open from scratch, clear whatever was in the file before
 
-  if (!file_overall.is_open())
+  if (!file_overall.is_open()) {
     std::cerr << "Error in Procedure::checkMod, the file " << PathVar::results / name_overall
               << " is not open!. Skipping this checkup.\n";
+    return;
+  }
 
-  if (!file_histograms.is_open())
+  if (!file_histograms.is_open()) {
     std::cerr << "Error in Procedure::checkMod, the file " << PathVar::results / name_hist
               << " is not open!. Skipping this checkup.\n";
+    return;
+  }
 
   file_overall << "Full ID,";              //!< Module IDs
   file_overall << "Number of cells,";      //!< Number of cells inside SU
@@ -578,7 +586,7 @@ void Procedure::checkMod(StorageUnit *su)
     if constexpr (settings::DATASTORE_COOL == 1) {
       // Temperature statistics:
       file_histograms << "Temperature statistics:," << su_fullID << '\n';
-      file_histograms << "Time histogram:\n";
+      file_histograms << "Temperature histogram:\n";
       file_histograms << GetHistograms(su_now->getCoolSystem()->coolData.tData).T << '\n';
       file_histograms << "Cooling power per cell histogram:\n";
       file_histograms << GetHistograms(su_now->getCoolSystem()->coolData.tData).Q << '\n';
@@ -592,7 +600,7 @@ void Procedure::checkMod(StorageUnit *su)
         file_histograms << GetHistograms(c->HVACdata.tData).Qac << '\n';
 
         file_histograms << "Eac histogram:\n";
-        file_histograms << GetHistograms(c->HVACdata.tData).Qac << '\n';
+        file_histograms << GetHistograms(c->HVACdata.tData).Eac << '\n';
       }
     }
   };
@@ -634,13 +642,18 @@ void Procedure::writeThroughput(const std::string &SUID, double Ahtot)
   std::ofstream file;
   if (Ahtot == 0) {
     file.open(PathVar::results / name); //!< open from scratch, clear whatever was in the file before
-    file << "ID number" << ',' << "cells charge throughput" << ','
+    file << "cells charge throughput" << ','
          << "Cells energy throughput" << ','
          << "total energy to operate the thermal management system" << ','
          << "losses in the converter" << '\n';
   } else
     file.open(PathVar::results / name, std::ios_base::app); //!< append to the existing file
 
+  if (!file.is_open()) { //!< keep the data for the next time
+    std::cerr << "Error in Procedure::writeThroughput, the file " << PathVar::results / name << " is not open!\n";
+    return;
+  }
+
   //!< Write the data
   for (const auto &th : throughput)
     file << th.charge << ',' << th.energy << ','
-- 
2.43.0


From ccf2c60da9184305a526a4878404ef91a3156788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 27/41] fix: time series files end the line after every record,
 also the last one of a write

---
 src/utility/free_functions.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 9ca90d5..775c447 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -56,15 +56,8 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
 
 inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N = 1)
 {
-  for (size_t i{}; i < data.size(); i++) {
-    if (i % N == 0) {
-      if (i != 0)
-        file << '\n';
-    } else
-      file << ',';
-
-    file << data[i];
-  }
+  for (size_t i{}; i < data.size(); i++) //!< end the line after every record, such that the next write starts on a new line
+    file << data[i] << ((i + 1) % N == 0 ? '\n' : ',');
 
   data.clear(); //!< reset the index to 0 since we can overwrite the stored data
 }
-- 
2.43.0


From 9f2b78d4d16186852274d952715e1d8cd5679aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 28/41] fix: data of modules, cooling systems and batteries is
 written to the results folder and interval means are reset after they are
 stored

---
 src/cooling/data_storage/CoolSystemData.cpp      |  7 ++++++-
 src/cooling/data_storage/CoolSystem_HVACData.cpp |  5 ++++-
 src/cooling/data_storage/CoolSystem_HVACData.hpp |  4 ++--
 src/modules/Module.hpp                           |  9 ++++-----
 src/system/Battery.cpp                           | 10 ++++------
 5 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/cooling/data_storage/CoolSystemData.cpp b/src/cooling/data_storage/CoolSystemData.cpp
index ae89822..9b62c5f 100644
--- a/src/cooling/data_storage/CoolSystemData.cpp
+++ b/src/cooling/data_storage/CoolSystemData.cpp
@@ -67,13 +67,18 @@ void CoolSystemData::storeData(CoolSystem &cs, CoolSystemInst_t &data)
                    cData.Qevac / cData.time, //!< cooling power
                    cData.E / cData.time,     //!< operating energy
                    cs.getFlr() });           //!< flow rate
+
+  //!< reset variables to calculate the mean
+  cData.E = 0;
+  cData.Qevac = 0;
+  cData.time = 0;
 }
 
 //!< ----- writeData ------
 
 auto CoolSystemData::openFile(const std::string &prefix)
 {
-  std::string name = prefix + "_coolSystemStats.csv";
+  const auto name = PathVar::results / (prefix + "_coolSystemStats.csv");
   //!< name of the file, start with the full hierarchy-ID to identify this cell
   /*
    * 1 gives the number of cells
diff --git a/src/cooling/data_storage/CoolSystem_HVACData.cpp b/src/cooling/data_storage/CoolSystem_HVACData.cpp
index 39a6afd..1bc5038 100644
--- a/src/cooling/data_storage/CoolSystem_HVACData.cpp
+++ b/src/cooling/data_storage/CoolSystem_HVACData.cpp
@@ -57,6 +57,9 @@ void CoolSystem_HVACData::storeData(CoolSystem_HVAC &cs, CoolSystem_HVACInst_t &
   const double Eacmean = cData.Eac / cs.coolData.cData.time;
 
   data.push_back({ cs.Q_ac, Eacmean }); //!< flow rate
+
+  //!< reset variables to calculate the mean
+  cData.Eac = 0;
 }
 
 //!< ----- writeData ------
@@ -79,7 +82,7 @@ auto CoolSystem_HVACData::openFile(const std::string &prefix)
    */
 
   //!< append the new data to the existing file
-  std::ofstream file(name, std::ios_base::app);
+  std::ofstream file(PathVar::results / name, std::ios_base::app);
 
   if (!file.is_open()) {
     std::cerr << "ERROR in CoolSystem_HVAC::writeData, could not open file " << name << '\n';
diff --git a/src/cooling/data_storage/CoolSystem_HVACData.hpp b/src/cooling/data_storage/CoolSystem_HVACData.hpp
index 9203957..253501f 100644
--- a/src/cooling/data_storage/CoolSystem_HVACData.hpp
+++ b/src/cooling/data_storage/CoolSystem_HVACData.hpp
@@ -17,8 +17,8 @@ class CoolSystem_HVAC;
 
 struct CoolSystem_HVACData
 {
-  CoolSystem_HVACCumulative cData;              //!< Cumulative variables.
-  [[no_unique_address]] CoolSystemData_t tData; //!< Time data (histogram or basic data)
+  CoolSystem_HVACCumulative cData;                   //!< Cumulative variables.
+  [[no_unique_address]] CoolSystem_HVACData_t tData; //!< Time data (histogram or basic data)
 
 public:
   void initialise(CoolSystem_HVAC &cs, double Qac_per_cell); //!< Do nothing.
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 508cac5..76ee8c7 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -159,7 +159,7 @@ public:
 
     if constexpr (settings::DATASTORE_MODULE >= settings::moduleDataStorageLevel::storeTimeData) //!< Write data for this module
     {
-      std::string name = prefix + "_" + getFullID() + "_ModuleData.csv"; //!< name of the file, start with the full hierarchy-ID to identify this cell
+      const auto name = PathVar::results / (prefix + "_" + getFullID() + "_ModuleData.csv"); //!< name of the file, start with the full hierarchy-ID to identify this cell
 
       //!< append the new data to the existing file
       std::ofstream file(name, std::ios_base::app); // #TODO if first time open + header, if not append.
@@ -174,10 +174,9 @@ public:
       file.close();
     }
 
-//!< Write data for the cooling system
-#if 0 //!< (DATASTORE_COOL > 0)
-			cool->writeData(prefix + '_' + getFullID()); //!< append the ID to the prefix since the cooling system does not have the ID of this module
-#endif
+    //!< Write data for the cooling system
+    if constexpr (settings::DATASTORE_COOL > 0)
+      cool->writeData(prefix + '_' + getFullID()); //!< append the ID to the prefix since the cooling system does not have the ID of this module
   }
 
   void setBlockDegAndTherm(bool block) override
diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 612be72..85727cd 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -242,18 +242,16 @@ void Battery::storeData()
 }
 void Battery::writeData(const std::string &prefix)
 {
-
-//!< Write data for the cooling system
-#if 0 //!< DATASTORE_COOL > 0
-		cool->writeData(prefix + '_' + getFullID()); //!< append the ID to the prefix since the cooling system does not have the ID of this module
-#endif
+  //!< Write data for the cooling system
+  if constexpr (settings::DATASTORE_COOL > 0)
+    cool->writeData(prefix + '_' + getFullID()); //!< append the ID to the prefix since the cooling system does not have the ID of this module
 
   //!< write data for the cells
   cells->writeData(prefix);
 
 //!< write local data
 #if DATASTORE_BATT == 2
-  std::string name = prefix + "_" + getFullID() + "_battData.csv"; //!< name of the file, start with the full hierarchy-ID to identify this cell
+  const auto name = PathVar::results / (prefix + "_" + getFullID() + "_battData.csv"); //!< name of the file, start with the full hierarchy-ID to identify this cell
 
   //!< append the new data to the existing file
   std::ofstream file;
-- 
2.43.0


From 5d59a1db4daef17aee7b9cf0bb5069982d141966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 29/41] fix: air-conditioning uses its own proportional gain
 for its own threshold

---
 src/cooling/CoolSystem_HVAC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cooling/CoolSystem_HVAC.cpp b/src/cooling/CoolSystem_HVAC.cpp
index f5abc25..11a73b9 100644
--- a/src/cooling/CoolSystem_HVAC.cpp
+++ b/src/cooling/CoolSystem_HVAC.cpp
@@ -227,7 +227,7 @@ void CoolSystem_HVAC::control(double Thot_local, double Thot_global)
 
     if (T() <= controlAC_onoff_Toff)
       Q_ac = 0;
-    else if (control_prop_gain * Terr > 0.2)                                //!< avoid very small cooling powers
+    else if (controlAC_prop_gain * Terr > 0.2)                              //!< avoid very small cooling powers
       Q_ac = controlAC_onoff_Q * std::min(controlAC_prop_gain * Terr, 1.0); //!< can't do more than the design-power
     else
       Q_ac = 0;
@@ -241,7 +241,7 @@ void CoolSystem_HVAC::control(double Thot_local, double Thot_global)
 
     if (T() <= controlAC_onoff_Toff)
       Q_ac = 0;
-    else if (control_prop_gain * Terr > 0.2)                                //!< avoid very small cooling powers
+    else if (controlAC_prop_gain * Terr > 0.2)                              //!< avoid very small cooling powers
       Q_ac = controlAC_onoff_Q * std::min(controlAC_prop_gain * Terr, 1.0); //!< can't do more than the design-power
     else
       Q_ac = 0;
-- 
2.43.0


From c2238784c8acd03af75e2d60daedddfec153778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 30/41] fix: every status has its own message and the time
 limit is a reached limit

---
 src/types/Status.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types/Status.hpp b/src/types/Status.hpp
index ba21336..51619ae 100644
--- a/src/types/Status.hpp
+++ b/src/types/Status.hpp
@@ -50,7 +50,7 @@ bool inline isStatusOK(Status status) { return (status < Status::Critical); }
 bool inline isStatusBad(Status status) { return !isStatusOK(status); }
 bool inline isStatusWarning(Status status) { return ((status != Status::Success) && isStatusOK(status)); } //!< Not successful but voltage is in limits.
 bool inline isStatusSafe(Status status) { return status < Status::NotSafe; }
-bool inline isLimitsReached(Status status) { return status < Status::ReachedTimeLimit; }
+bool inline isLimitsReached(Status status) { return status <= Status::ReachedTimeLimit; }
 
 bool inline isStatusVoltageLimitsViolated(Status status) { return (Status::Success < status && status <= Status::VMAXsafety_violation); }
 
@@ -73,6 +73,10 @@ inline const char *getStatusMessage(Status status)
     return "Vmax is violated!";
   case Status::VMAX_violation:
     return "VMAX is violated!";
+  case Status::VMINsafety_violation:
+    return "The lower safety limit is violated!";
+  case Status::VMAXsafety_violation:
+    return "The upper safety limit is violated!";
   case Status::V_not_calculated:
     return "V could not be calculated at all!";
   case Status::SOC_limits_violation:
-- 
2.43.0


From 2917343c9db2db54d111101732d70de232c4e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 31/41] fix: SmallVector::push_back refuses to store beyond its
 capacity

---
 src/types/SmallVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/SmallVector.hpp b/src/types/SmallVector.hpp
index 1930d47..4f5b33e 100644
--- a/src/types/SmallVector.hpp
+++ b/src/types/SmallVector.hpp
@@ -28,7 +28,7 @@ public:
 
   inline void push_back(const T &&elem)
   {
-    if (N > Nmax) {
+    if (N >= Nmax) {
       std::cerr << "Array is very small! Please increase its size from settings!\n";
       throw 1234;
     }
-- 
2.43.0


From c8ee402e7f841df709fc5de430c6d335e3ecd8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 32/41] fix: Histogram counts samples just below its range in
 the first bin and ignores samples if it has no bins

---
 src/types/Histogram.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/types/Histogram.hpp b/src/types/Histogram.hpp
index 3db1312..66c5568 100644
--- a/src/types/Histogram.hpp
+++ b/src/types/Histogram.hpp
@@ -31,7 +31,7 @@ class Histogram
 {
   std::vector<size_t> bins;
   Tdata x_min{}, x_max{}, dx{ 1 };
-  int Nbins;
+  int Nbins{ 0 };
 
 public:
   Histogram() = default;
@@ -49,10 +49,18 @@ public:
      * bins[0] is number of elements less than x_min
      * bins[end] is number of elements more than x_max
      * */
-    auto i = static_cast<int>(1 + (x - x_min) / dx);
+    if (bins.empty()) return; //!< there is nothing to count in
 
     const auto ssize = static_cast<int>(bins.size());
-    i = std::max(0, std::min(i, ssize - 1)); // #TODO what happens if container is empty?
+    const auto pos = (x - x_min) / dx;
+
+    //!< compare before converting, pos can be outside the range of an integer and (-1,0) would be rounded to the first bin inside the range
+    int i{ 0 };
+    if (pos >= ssize - 2)
+      i = ssize - 1;
+    else if (pos >= 0)
+      i = static_cast<int>(1 + pos);
+
     bins[i]++;
   }
 
-- 
2.43.0


From 246339574357049f176085c3bd63d37c76f3d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 33/41] fix: fixed step interpolation stays inside the table
 and uses the enclosing entries

---
 src/utility/interpolation.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index 955c146..12c191d 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -57,7 +57,9 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
     }
   }
 
-  if (x <= xdat[0])
+  if (std::isnan(x))
+    yy = x; //!< there is no place in the table for x
+  else if (x <= xdat[0])
     yy = ydat[0]; //!< if x is below the minimum value, return the y value of the first data point
   else if (x >= xdat[nin - 1])
     yy = ydat[nin - 1]; //!< if x is above the maximum value, return the y value of the last data point
@@ -69,6 +71,9 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
     if (is_fixed) {
       double dt = xdat[1] - xdat[0];
       i_low = static_cast<int>((x - xdat[0]) / dt) + 1;
+      i_low = std::clamp(i_low, 1, nin - 1); //!< steps are equal up to a tolerance only, so this is an estimate
+      while (i_low > 1 && x < xdat[i_low - 1]) i_low--;
+      while (i_low < nin - 1 && x > xdat[i_low]) i_low++;
     } else {
       //!< binary search algorithm:
       //!< i_low will be the first index which compares greater than x;
-- 
2.43.0


From 91161f76795725328cedec4441b84f1358bbfce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 34/41] fix: CSV readers stop at the end of the file and never
 store more rows than fit

---
 src/utility/io/read_CSVfiles.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index b62717e..a22b391 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -76,7 +76,7 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 
   char c = '.';
 
-  while (in.peek() <= 32) //!< Ignore byte order mark (BOM) at the beginning
+  while (in.good() && in.peek() <= 32) //!< Ignore byte order mark (BOM) at the beginning
     in >> c;
 
   for (size_t i = 0; i < ROW; i++) {
@@ -105,7 +105,7 @@ inline void ignoreBOM(std::ifstream &in)
 
   do {
     in >> c;
-  } while (c < 45); //!< Ignore byte order mark (BOM) at the beginning
+  } while (in.good() && c < 45); //!< Ignore byte order mark (BOM) at the beginning
 
   in.putback(c);
 }
@@ -153,7 +153,8 @@ void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
       j++;
     }
   } else {                                                 //!< It must be a std::array, then just read without clear.
-    while ((n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file.
+    const auto n_max = static_cast<int>(std::min(std::size(x), std::size(y)));
+    while (j < n_max && (n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file, but not more than fits.
       j++;
   }
 }
@@ -204,6 +205,11 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
     }
   }
 
+  if (n_rows == 0) {
+    std::cerr << "Error in ReadCSVfiles::loadCSV_Ncol. File " << name << " has no rows.\n";
+    throw 2;
+  }
+
   int n_cols = x.data.size() / n_rows;
 
   x.reshape(n_cols, n_rows);
@@ -252,6 +258,11 @@ void loadCSV_2col(const Tpath &name, std::span<double> &x, std::span<double> &y,
     x = std::span<double>(XYdataMap[name_str].x_vec);
     y = std::span<double>(XYdataMap[name_str].y_vec);
   } else {
+    if (n < 0 || static_cast<size_t>(n) > XYdataMap[name_str].x_vec.size()) {
+      std::cerr << "Error in ReadCSVfiles::loadCSV_2col. File " << name << " has less than " << n << " rows.\n";
+      throw 2;
+    }
+
     x = std::span<double>(&XYdataMap[name_str].x_vec[0], &XYdataMap[name_str].x_vec[0] + n); // #TODO temporary solution using pointers instead of iterators.
     y = std::span<double>(&XYdataMap[name_str].y_vec[0], &XYdataMap[name_str].y_vec[0] + n);
   }
-- 
2.43.0


From ec9a291839b26e52f8d9f9c0617341569361b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 35/41] fix: histograms of cells can be written, so
 storeHistogramData compiles

---
 src/types/data_storage/CellDataWriter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/types/data_storage/CellDataWriter.hpp b/src/types/data_storage/CellDataWriter.hpp
index 546cd25..a3a3db8 100644
--- a/src/types/data_storage/CellDataWriter.hpp
+++ b/src/types/data_storage/CellDataWriter.hpp
@@ -43,7 +43,9 @@ void writeDataImpl(std::ofstream &file, auto &cell, auto &dataStorage)
   if constexpr (settings::data::writeCumulativeData)
     writeVarAndStates(file, cell);
 
-  if constexpr (N >= settings::cellDataStorageLevel::storeHistogramData)
+  if constexpr (N == settings::cellDataStorageLevel::storeHistogramData)
+    slide::writeData(file, dataStorage.data);
+  else if constexpr (N == settings::cellDataStorageLevel::storeTimeData)
     free::write_data(file, dataStorage.data, 7);
   //!< else write nothing.
 }
-- 
2.43.0


From e3fe0ddf08eff99ec72b098115ad722ec0c56707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 36/41] fix: battery data is stored in a vector in the order of
 its columns, so DATASTORE_BATT 2 compiles

---
 src/system/Battery.cpp | 2 +-
 src/system/Battery.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 85727cd..556d4af 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -237,7 +237,7 @@ void Battery::storeData()
 //!< store local data
 #if DATASTORE_BATT == 2
   //!< add a new point in all the arrays
-  batData.push_back({ I(), V(), T(), conv->getLosses(V(), I()), timetot });
+  batData.push_back({ timetot, I(), V(), T(), conv.getLosses(V(), I()) });
 #endif
 }
 void Battery::writeData(const std::string &prefix)
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 69f1a58..d78e5a7 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -32,7 +32,7 @@ protected:
 
 #if DATASTORE_BATT > 1
   double timetot{ 0 }; //!< time so far [s]
-  BatteryData batData;
+  std::vector<BatteryData> batData;
 #endif
 
 public:
-- 
2.43.0


From b527e6d99d1cdc5e31342335b8c41ceb4c7665d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 37/41] fix: check_voltage reports a voltage which is not a
 number as not computable

---
 src/utility/free_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 775c447..304c513 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -159,7 +159,7 @@ auto inline check_voltage(double &v, auto &su) //!< Check voltage.
     return Status::V_not_calculated;
   }
 
-  if (v <= 0) {
+  if (!(v > 0)) { //!< also if it is not a number
     if (printCrit)
       std::cout << "Error in Cell::setStates when getting the voltage, which is "
                 << v << " restoring the old states.\n";
-- 
2.43.0


From b76e2b91a34af72d79e6531366b961a5c108f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 38/41] fix: series module forgets its voltage also when a time
 step fails and when the thermal model changes the members

---
 src/modules/Module.cpp   | 3 +++
 src/modules/Module_s.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 180f3e4..ff2db0b 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -463,6 +463,9 @@ double Module::thermalModel_coupled(int Nneighbours, double Tneighbours[], doubl
  */
 double Module::thermalModel(int Nneighbours, double Tneighbours[], double Kneighbours[], double Aneighb[], double tim)
 {
+  if constexpr (settings::T_MODEL != 0)
+    Vmodule_valid = false; //!< the temperature of the members changes, on which their voltage depends.
+
   double Tout;
   try {
     if constexpr (settings::T_MODEL == 0)
diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index b38c3a3..6a5a830 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -135,6 +135,8 @@ void Module_s::timeStep_CC(double dt, int nstep)
     throw 10;
   }
 
+  Vmodule_valid = false; //!< also if one of the members fails after others took the step.
+
   //!< we simply take one CC time step on every cell
   auto task_indv = [&](int i) { SUs[i]->timeStep_CC(dt, nstep); };
 
-- 
2.43.0


From e208ff8f372461131c4cd10df944453e08bf8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 39/41] fix: the stored stress is out of date after a state
 vector was set and after ageing changed the concentrations

---
 src/cells/Cell_SPM/Cell_SPM.cpp        | 4 ++++
 src/cells/Cell_SPM/Cell_SPM.hpp        | 2 ++
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index d29646d..7a9ec51 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -372,6 +372,10 @@ Status Cell_SPM::setStates(setStates_t s, bool checkV, bool print)
   if (isStatusBad(status)) {
     st = st_old; //!< Restore states here.
     Vcell_valid = Vcell_valid_prev;
+  } else {
+    //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
+    sparam.s_dai_update = false;
+    sparam.s_lares_update = false;
   }
 
   return status;
diff --git a/src/cells/Cell_SPM/Cell_SPM.hpp b/src/cells/Cell_SPM/Cell_SPM.hpp
index 02e0597..38d755e 100644
--- a/src/cells/Cell_SPM/Cell_SPM.hpp
+++ b/src/cells/Cell_SPM/Cell_SPM.hpp
@@ -167,6 +167,8 @@ public:
   {
     st = st_new;
     Vcell_valid = false;
+    sparam.s_dai_update = false;
+    sparam.s_lares_update = false;
   }
 
   std::array<double, 4> getVariations() const noexcept override { return { var_cap, var_R, var_degSEI, var_degLAM }; } // #TODO : deprecated will be deleted.
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 3227071..8dd7dd0 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -360,6 +360,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
       st[i] += d_st[i] * dt * nstep;
 
     Vcell_valid = false; //!< the degradation changed the resistance and the concentrations.
+    sparam.s_dai_update = false;
+    sparam.s_lares_update = false;
   }
 }
 
-- 
2.43.0


From 58ff35b5e3257da3cfe90d084ecb30001bb0dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:12 +0000
Subject: [PATCH 40/41] fix: parallel module counts the currents of the other
 resistors again in the heat of a contact resistance

---
 src/modules/Module_p.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index c63fa25..1b501ac 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -341,10 +341,10 @@ void Module_p::timeStep_CC(double dt, int nstep)
     therm.time += nstep * dt;
 
     //!< Increase the heat from the contact resistances
-    double Ii = 0; //!< current through resistor I
     for (size_t i = 0; i < SUs.size(); i++) {
-      for (size_t j = i; j < SUs.size(); j++) // #TODO very important! Not calculating current for Rcontact properly!!!!!!!!!!
-        Ii += SUs[j]->I();                    //!< resistor i sees the currents through the cells 'behind' them
+      double Ii = 0; //!< current through resistor i
+      for (size_t j = i; j < SUs.size(); j++)
+        Ii += SUs[j]->I(); //!< resistor i sees the currents through the cells 'behind' them
 
       therm.Qcontact += Rcontact[i] * sqr(Ii) * nstep * dt;
     }
-- 
2.43.0


From c044c9b852a576392992f9edc7b9de4609144b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:50 +0000
Subject: [PATCH 41/41] fix: a module refuses more storage units than its
 member tables can hold

---
 src/modules/Module.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index ff2db0b..3a798fd 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -91,6 +91,14 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
     }
   }
 
+  if (c.size() > settings::MODULE_NSUs_MAX) //!< the functions of a module have room for this number of SUs
+  {
+    if (verb)
+      std::cerr << "ERROR in Module::setSUs, " << c.size() << " SUs are more than the maximum of "
+                << settings::MODULE_NSUs_MAX << ". Please increase MODULE_NSUs_MAX in settings. Throwing 10.\n";
+    throw 10;
+  }
+
   //!< check the cells are valid according to this module layout
   // #TODO checkCells & setSUs removed from here
 
-- 
2.43.0


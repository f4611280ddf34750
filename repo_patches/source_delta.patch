From 4e214feb5d6a591bc9696e51a281d93d50edc0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:30 +0000
Subject: [PATCH 01/64] fix: honour the metric prefix of kelvin-based
 activation energy units

---
 src/base/Units.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index fd1566d..85f553d 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -525,7 +525,7 @@ void UnitSystem::setDefaultActivationEnergy(const string& e_units)
     if (u.convertible(Units("J/kmol"))) {
         m_activation_energy_factor = u.factor();
     } else if (u.convertible(knownUnits.at("K"))) {
-        m_activation_energy_factor = GasConstant;
+        m_activation_energy_factor = GasConstant * u.factor();
     } else if (u.convertible(knownUnits.at("eV"))) {
         m_activation_energy_factor = u.factor() * Avogadro;
     } else {
@@ -713,7 +713,7 @@ double UnitSystem::convertActivationEnergyTo(double value,
     if (dest.convertible(Units("J/kmol"))) {
         return value * m_activation_energy_factor / dest.factor();
     } else if (dest.convertible(knownUnits.at("K"))) {
-        return value * m_activation_energy_factor / GasConstant;
+        return value * m_activation_energy_factor / (GasConstant * dest.factor());
     } else if (dest.convertible(knownUnits.at("eV"))) {
         return value * m_activation_energy_factor / (Avogadro * dest.factor());
     } else {
@@ -728,7 +728,7 @@ double UnitSystem::convertActivationEnergyFrom(double value, const string& src)
     if (usrc.convertible(Units("J/kmol"))) {
         return value * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("K"))) {
-        return value * GasConstant / m_activation_energy_factor;
+        return value * GasConstant * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("eV"))) {
         return value * Avogadro * usrc.factor() / m_activation_energy_factor;
     } else {
-- 
2.43.0


From 92b598ceffdc2ac7a928627c56749a30996b1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:30 +0000
Subject: [PATCH 02/64] fix: UnitSystem::getDelta must restore implied
 activation energy units

---
 src/base/Units.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index 85f553d..f3d9e19 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -780,9 +780,10 @@ AnyMap UnitSystem::getDelta(const UnitSystem& other) const
     }
     if (m_explicit_activation_energy
         || (other.m_explicit_activation_energy
-            && m_activation_energy_factor != m_energy_factor / m_quantity_factor))
+            && other.m_activation_energy_factor != m_activation_energy_factor))
     {
-        delta["activation-energy"] = get(m_defaults, "activation-energy", "J/kmol");
+        // Implied by the energy and quantity units if not specified explicitly
+        delta["activation-energy"] = defaults().at("activation-energy");
     }
     return delta;
 }
-- 
2.43.0


From 4f487c653575a41b0c279cf9f40e9a9851e305d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:08 +0000
Subject: [PATCH 03/64] fix: include newly added third bodies in composition
 derivatives

---
 src/kinetics/BulkKinetics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 0b6ce9b..4c4114b 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -63,6 +63,10 @@ bool BulkKinetics::addReaction(shared_ptr<Reaction> r, bool resize)
     // Add reaction to third-body evaluator
     if (r->thirdBody() != nullptr) {
         addThirdBody(r);
+        if (resize) {
+            // resizeReactions() was called before the third body was installed
+            m_multi_concm.resizeCoeffs(nTotalSpecies(), nReactions());
+        }
     }
 
     m_concm.push_back(NAN);
-- 
2.43.0


From 260a79b4eaea17caacec84917e2092a3f71bab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:08 +0000
Subject: [PATCH 04/64] fix: equilibrium constants after a pressure change at
 constant T and density

---
 src/kinetics/BulkKinetics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 4c4114b..ae41a72 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -176,6 +176,10 @@ void BulkKinetics::getEquilibriumConstants(double* kc)
     vector<double>& delta_gibbs0 = m_rbuf0;
     fill(delta_gibbs0.begin(), delta_gibbs0.end(), 0.0);
 
+    // standard chemical potentials must correspond to the same pressure as the standard
+    // concentration used below; updateROP() only tracks changes of T and density
+    thermo().getStandardChemPotentials(m_grt.data());
+
     // compute Delta G^0 for all reactions
     getReactionDelta(m_grt.data(), delta_gibbs0.data());
 
-- 
2.43.0


From 25f3a0d117d2466c160d80fb0e6e8c379f7fa716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:12 +0000
Subject: [PATCH 05/64] fix: replacing a rate whose evaluator also holds rates
 of another type

---
 include/cantera/kinetics/MultiRate.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cantera/kinetics/MultiRate.h b/include/cantera/kinetics/MultiRate.h
index 48aeb1c..61428dd 100644
--- a/include/cantera/kinetics/MultiRate.h
+++ b/include/cantera/kinetics/MultiRate.h
@@ -46,14 +46,19 @@ public:
                  "Invalid operation: cannot replace rate object "
                  "in empty rate handler.");
         }
-        if (rate.type() != type()) {
+        // a handler can hold rates of more than one type, such as falloff and
+        // chemically activated reactions
+        auto loc = m_indices.find(rxn_index);
+        const string oldType = (loc != m_indices.end()) ?
+            m_rxn_rates.at(loc->second).second.type() : type();
+        if (rate.type() != oldType) {
             throw CanteraError("MultiRate::replace",
                  "Invalid operation: cannot replace rate object of type '{}' "
-                 "with a new rate of type '{}'.", type(), rate.type());
+                 "with a new rate of type '{}'.", oldType, rate.type());
         }
         m_shared.invalidateCache();
-        if (m_indices.find(rxn_index) != m_indices.end()) {
-            size_t j = m_indices[rxn_index];
+        if (loc != m_indices.end()) {
+            size_t j = loc->second;
             m_rxn_rates.at(j).second = dynamic_cast<RateType&>(rate);
             return true;
         }
-- 
2.43.0


From 0555b285885c0d1f812d80ac2683b250c70c2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 06/64] fix: refuse reaction modifications that cannot take
 effect

---
 src/kinetics/Kinetics.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index d382dce..25525c9 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -736,6 +736,35 @@ void Kinetics::modifyReaction(size_t i, shared_ptr<Reaction> rNew)
             "Products are different: '{}' != '{}'.",
             rOld->productString(), rNew->productString());
     }
+
+    // Only the rate can be replaced: other properties were evaluated when the
+    // reaction was added and would not take effect.
+    if (rNew->reversible != rOld->reversible) {
+        throw CanteraError("Kinetics::modifyReaction",
+            "Reversibility is different for reaction '{}'.", rOld->equation());
+    }
+
+    auto forwardOrders = [](const Reaction& R) {
+        Composition orders = R.reactants;
+        for (const auto& [name, order] : R.orders) {
+            orders[name] = order;
+        }
+        return orders;
+    };
+    if (forwardOrders(*rNew) != forwardOrders(*rOld)) {
+        throw CanteraError("Kinetics::modifyReaction",
+            "Reaction orders are different for reaction '{}'.", rOld->equation());
+    }
+
+    auto tbNew = rNew->thirdBody();
+    auto tbOld = rOld->thirdBody();
+    if (tbNew && tbOld && (tbNew->efficiencies != tbOld->efficiencies
+        || tbNew->default_efficiency != tbOld->default_efficiency))
+    {
+        throw CanteraError("Kinetics::modifyReaction",
+            "Third-body efficiencies are different for reaction '{}'.",
+            rOld->equation());
+    }
     m_reactions[i] = rNew;
     invalidateCache();
 }
-- 
2.43.0


From e1c88c2a2b3356a4949b1c2add5bceee4d709032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 07/64] fix: check the balance of reactions with third bodies

---
 src/kinetics/Reaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index aa88c39..37d11bb 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -702,8 +702,8 @@ bool Reaction::checkSpecies(const Kinetics& kin) const
         }
     }
 
-    if (m_third_body) {
-        return m_third_body->checkSpecies(*this, kin);
+    if (m_third_body && !m_third_body->checkSpecies(*this, kin)) {
+        return false;
     }
 
     checkBalance(kin);
-- 
2.43.0


From 0ea4298823ce0f0db430aa88433d195452dd0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 08/64] fix: detect unbalanced electrons in reactions of
 cations

---
 src/kinetics/Reaction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index 37d11bb..d5eb0f4 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -603,6 +603,7 @@ void updateUndeclared(vector<string>& undeclared,
 void Reaction::checkBalance(const Kinetics& kin) const
 {
     Composition balr, balp;
+    Composition scale; // sum of magnitudes, as counts can be negative (electrons)
 
     // iterate over products and reactants
     for (const auto& [name, stoich] : products) {
@@ -611,6 +612,7 @@ void Reaction::checkBalance(const Kinetics& kin) const
         for (size_t m = 0; m < ph.nElements(); m++) {
             balr[ph.elementName(m)] = 0.0; // so that balr contains all species
             balp[ph.elementName(m)] += stoich * ph.nAtoms(k, m);
+            scale[ph.elementName(m)] += fabs(stoich * ph.nAtoms(k, m));
         }
     }
     for (const auto& [name, stoich] : reactants) {
@@ -618,13 +620,14 @@ void Reaction::checkBalance(const Kinetics& kin) const
         size_t k = ph.speciesIndex(name);
         for (size_t m = 0; m < ph.nElements(); m++) {
             balr[ph.elementName(m)] += stoich * ph.nAtoms(k, m);
+            scale[ph.elementName(m)] += fabs(stoich * ph.nAtoms(k, m));
         }
     }
 
     string msg;
     bool ok = true;
     for (const auto& [elem, balance] : balr) {
-        double elemsum = balr[elem] + balp[elem];
+        double elemsum = scale[elem];
         double elemdiff = fabs(balp[elem] - balr[elem]);
         if (elemsum > 0.0 && elemdiff / elemsum > 1e-4) {
             ok = false;
-- 
2.43.0


From 6628cdc4308727270151cafd1871a89bea9d083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 09/64] fix: duplicate reactions missed after comparison with
 unrelated reactions

---
 src/kinetics/Kinetics.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index 25525c9..f52bde6 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -239,20 +239,28 @@ double Kinetics::checkDuplicateStoich(map<int, double>& r1, map<int, double>& r2
     std::unordered_set<int> keys; // species keys (k+1 or -k-1)
     for (auto& [speciesKey, stoich] : r1) {
         keys.insert(speciesKey);
+        keys.insert(-speciesKey);
     }
     for (auto& [speciesKey, stoich] : r2) {
         keys.insert(speciesKey);
+        keys.insert(-speciesKey);
     }
+    // The stoichiometries are compared with several reactions, so they must not be
+    // modified by looking up species which are not present.
+    auto get = [](const map<int, double>& r, int k) {
+        auto iter = r.find(k);
+        return (iter == r.end()) ? 0.0 : iter->second;
+    };
     int k1 = r1.begin()->first;
     // check for duplicate written in the same direction
     double ratio = 0.0;
-    if (r1[k1] && r2[k1]) {
-        ratio = r2[k1]/r1[k1];
+    if (get(r1, k1) && get(r2, k1)) {
+        ratio = get(r2, k1) / get(r1, k1);
         bool different = false;
         for (int k : keys) {
-            if ((r1[k] && !r2[k]) ||
-                (!r1[k] && r2[k]) ||
-                (r1[k] && fabs(r2[k]/r1[k] - ratio) > 1.e-8)) {
+            double s1 = get(r1, k);
+            double s2 = get(r2, k);
+            if ((s1 && !s2) || (!s1 && s2) || (s1 && fabs(s2/s1 - ratio) > 1.e-8)) {
                 different = true;
                 break;
             }
@@ -263,14 +271,14 @@ double Kinetics::checkDuplicateStoich(map<int, double>& r1, map<int, double>& r2
     }
 
     // check for duplicate written in the reverse direction
-    if (r1[k1] == 0.0 || r2[-k1] == 0.0) {
+    if (get(r1, k1) == 0.0 || get(r2, -k1) == 0.0) {
         return 0.0;
     }
-    ratio = r2[-k1]/r1[k1];
+    ratio = get(r2, -k1) / get(r1, k1);
     for (int k : keys) {
-        if ((r1[k] && !r2[-k]) ||
-            (!r1[k] && r2[-k]) ||
-            (r1[k] && fabs(r2[-k]/r1[k] - ratio) > 1.e-8)) {
+        double s1 = get(r1, k);
+        double s2 = get(r2, -k);
+        if ((s1 && !s2) || (!s1 && s2) || (s1 && fabs(s2/s1 - ratio) > 1.e-8)) {
             return 0.0;
         }
     }
-- 
2.43.0


From 3d53819b75253e47414df4977e503418ec5b5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 10/64] fix: unrelated reactions do not justify each other's
 duplicate flags

---
 src/kinetics/Kinetics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index f52bde6..98c88c2 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -139,6 +139,9 @@ pair<size_t, size_t> Kinetics::checkDuplicates(bool throw_err) const
             Reaction& other = *m_reactions[m];
             if (R.duplicate && other.duplicate) {
                 // marked duplicates
+                if (checkDuplicateStoich(net_stoich[i], net_stoich[m]) == 0.0) {
+                    continue; // stoichiometries differ (not by a multiple)
+                }
                 unmatched_duplicates.erase(i);
                 unmatched_duplicates.erase(m);
                 continue;
-- 
2.43.0


From 37c0635dedafbf63f123ff72cb90a98012522ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 11/64] fix: crash for falloff reactions with species common to
 both sides

---
 src/kinetics/Reaction.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index d5eb0f4..ad08acf 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -396,14 +396,17 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
     }
 
     string third_body;
+    string marked; // third body identified by notation, that is 'M' or '(+X)'
     size_t count = 0;
     size_t countM = 0;
     for (const auto& [name, stoich] : reactants) {
         // detect explicitly specified collision partner
         if (products.count(name)) {
             third_body = name;
-            size_t generic = third_body == "M"
-                || third_body == "(+M)"  || third_body == "(+ M)";
+            size_t generic = third_body == "M" || ba::starts_with(third_body, "(+");
+            if (generic) {
+                marked = third_body;
+            }
             count++;
             countM += generic;
             if (stoich > 1 && products[third_body] > 1) {
@@ -429,8 +432,8 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
         // equations with more than one explicit third-body collider are handled as a
         // regular elementary reaction unless the equation contains a generic third body
         if (countM) {
-            // generic collider 'M' is selected as third body
-            third_body = "M";
+            // collider identified by its notation is selected as third body
+            third_body = marked;
         } else if (m_third_body) {
             // third body is defined as explicit object
             auto& effs = m_third_body->efficiencies;
-- 
2.43.0


From 59937423750fdaff62a21830290e38cdfb9128b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 12/64] fix: duplicates marked automatically are not unmatched;
 label reported duplicates correctly

---
 src/kinetics/Kinetics.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index 98c88c2..183f3cc 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -177,6 +177,8 @@ pair<size_t, size_t> Kinetics::checkDuplicates(bool throw_err) const
                     if (m_explicit_third_body_duplicates == "mark-duplicate") {
                         R.duplicate = true;
                         other.duplicate = true;
+                        unmatched_duplicates.erase(i);
+                        unmatched_duplicates.erase(m);
                         continue;
                     } else if (m_explicit_third_body_duplicates == "modify-efficiency") {
                         if (tb1.name() == "M") {
@@ -195,7 +197,7 @@ pair<size_t, size_t> Kinetics::checkDuplicates(bool throw_err) const
                             "the YAML phase entry\nto choose how these reactions "
                             "should be handled and suppress this warning.\n"
                             "Reaction {}: {}\nReaction {}: {}\n",
-                            m+1, R.equation(), i+1, other.equation());
+                            m+1, other.equation(), i+1, R.equation());
                         warn_user("Kinetics::checkDuplicates", msg.what());
                         continue;
                     } // else m_explicit_third_body_duplicates == "error"
@@ -206,7 +208,7 @@ pair<size_t, size_t> Kinetics::checkDuplicates(bool throw_err) const
                         R.input, other.input,
                         "Undeclared duplicate reactions detected:\n"
                         "Reaction {}: {}\nReaction {}: {}\n",
-                        m+1, R.equation(), i+1, other.equation());
+                        m+1, other.equation(), i+1, R.equation());
             } else {
                 return {i,m};
             }
-- 
2.43.0


From 3521cd424cd0e381061e35d5833f5b1d68dbf8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 13/64] fix: numerical derivatives of rates of progress with
 multipliers

---
 src/kinetics/BulkKinetics.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index ae41a72..dc22103 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -610,7 +610,7 @@ void BulkKinetics::process_ddT(const vector<double>& in, double* drop)
     // apply temperature derivative
     copy(in.begin(), in.end(), drop);
     for (auto& rates : m_bulk_rates) {
-        rates->processRateConstants_ddT(drop, m_rfn.data(), m_jac_rtol_delta);
+        rates->processRateConstants_ddT(drop, m_kf0.data(), m_jac_rtol_delta);
     }
 }
 
@@ -619,7 +619,7 @@ void BulkKinetics::process_ddP(const vector<double>& in, double* drop)
     // apply pressure derivative
     copy(in.begin(), in.end(), drop);
     for (auto& rates : m_bulk_rates) {
-        rates->processRateConstants_ddP(drop, m_rfn.data(), m_jac_rtol_delta);
+        rates->processRateConstants_ddP(drop, m_kf0.data(), m_jac_rtol_delta);
     }
 }
 
@@ -652,7 +652,7 @@ void BulkKinetics::process_ddC(StoichManagerN& stoich, const vector<double>& in,
         for (auto& rates : m_bulk_rates) {
             // processing step assigns zeros to entries not dependent on M
             rates->processRateConstants_ddM(
-                outM.data(), m_rfn.data(), m_jac_rtol_delta);
+                outM.data(), m_kf0.data(), m_jac_rtol_delta);
         }
         out += outM;
     }
@@ -691,7 +691,7 @@ Eigen::SparseMatrix<double> BulkKinetics::calculateCompositionDerivatives(
         for (auto& rates : m_bulk_rates) {
             // processing step does not modify entries not dependent on M
             rates->processRateConstants_ddM(
-                outV.data(), m_rfn.data(), m_jac_rtol_delta, false);
+                outV.data(), m_kf0.data(), m_jac_rtol_delta, false);
         }
     }
 
-- 
2.43.0


From 3aba2fdd60d142619891593a4eae83f169bc8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 14/64] fix: skip-falloff must exclude third-body terms of
 falloff rates from composition derivatives

---
 src/kinetics/BulkKinetics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index dc22103..fc328e8 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -693,6 +693,9 @@ Eigen::SparseMatrix<double> BulkKinetics::calculateCompositionDerivatives(
             rates->processRateConstants_ddM(
                 outV.data(), m_kf0.data(), m_jac_rtol_delta, false);
         }
+    } else {
+        // no contributions from third bodies that are part of the rate expression
+        m_multi_concm.scaleM(outV.data(), outV.data(), m_concm.data(), 0.0);
     }
 
     // derivatives handled by ThirdBodyCalc
-- 
2.43.0


From f49dcc7d009958d14bacc2e509b2afc195c2b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 15/64] fix: temperature derivatives of reverse rates after a
 pressure change at constant T and density

The unperturbed Gibbs energy was that of the state of the last update of the equilibrium
constants, which can have another pressure at the same temperature and density.
---
 src/kinetics/BulkKinetics.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index fc328e8..b602218 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -580,6 +580,11 @@ void BulkKinetics::applyEquilibriumConstants_ddT(double* drkcn)
     vector<double>& delta_gibbs0 = m_rbuf1;
     fill(delta_gibbs0.begin(), delta_gibbs0.end(), 0.0);
 
+    // unperturbed Delta G^0 has to correspond to the current pressure, while updateROP()
+    // only tracks changes of temperature and density
+    thermo().getStandardChemPotentials(grt.data());
+    getRevReactionDelta(grt.data(), m_delta_gibbs0.data());
+
     // compute perturbed Delta G^0 for all reversible reactions
     thermo().saveState(m_state);
     thermo().setState_TP(T * (1. + m_jac_rtol_delta), P);
-- 
2.43.0


From 3e4ab42402a2b6c9ab2b10844466b57f5a3e9fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:49 +0000
Subject: [PATCH 16/64] fix: a refused species leaves the phase unmodified

---
 src/thermo/Phase.cpp       | 44 +++++++++++++++++++++++---------------
 src/thermo/ThermoPhase.cpp | 29 +++++++++++++++++++------
 2 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/src/thermo/Phase.cpp b/src/thermo/Phase.cpp
index 86fc84b..2a3131c 100644
--- a/src/thermo/Phase.cpp
+++ b/src/thermo/Phase.cpp
@@ -713,18 +713,16 @@ bool Phase::addSpecies(shared_ptr<Species> spec)
             m_name, spec->name);
     }
 
-    vector<double> comp(nElements());
+    // Check for errors before making any changes, so that the phase is unmodified if the
+    // species cannot be added
     for (const auto& [eName, stoich] : spec->composition) {
-        size_t m = elementIndex(eName);
-        if (m == npos) { // Element doesn't exist in this phase
+        if (elementIndex(eName) == npos) { // Element doesn't exist in this phase
             switch (m_undefinedElementBehavior) {
             case UndefElement::ignore:
                 return false;
 
             case UndefElement::add:
-                addElement(eName);
-                comp.resize(nElements());
-                m = elementIndex(eName);
+                getElementWeight(eName); // throws if the element is unknown
                 break;
 
             case UndefElement::error:
@@ -734,6 +732,21 @@ bool Phase::addSpecies(shared_ptr<Species> spec)
                     spec->name, eName);
             }
         }
+    }
+    double ecomp = getValue(spec->composition, string("E"), 0.0);
+    if (spec->charge != 0.0 && ecomp != 0.0 && fabs(spec->charge + ecomp) > 0.001) {
+        throw CanteraError("Phase::addSpecies",
+                           "Input charge and element E compositions differ "
+                           "for species " + spec->name);
+    }
+
+    vector<double> comp(nElements());
+    for (const auto& [eName, stoich] : spec->composition) {
+        size_t m = elementIndex(eName);
+        if (m == npos) {
+            m = addElement(eName);
+            comp.resize(nElements());
+        }
         comp[m] = stoich;
     }
 
@@ -742,17 +755,10 @@ bool Phase::addSpecies(shared_ptr<Species> spec)
     if (spec->charge != 0.0) {
         size_t eindex = elementIndex("E");
         if (eindex != npos) {
-            double ecomp = comp[eindex];
-            if (fabs(spec->charge + ecomp) > 0.001) {
-                if (ecomp != 0.0) {
-                    throw CanteraError("Phase::addSpecies",
-                                       "Input charge and element E compositions differ "
-                                       "for species " + spec->name);
-                } else {
-                    // Just fix up the element E composition based on the input
-                    // species charge
-                    comp[eindex] = -spec->charge;
-                }
+            if (ecomp == 0.0) {
+                // Just fix up the element E composition based on the input
+                // species charge
+                comp[eindex] = -spec->charge;
             }
         } else {
             addElement("E", 0.000545, 0, 0.0, CT_ELEM_TYPE_ELECTRONCHARGE);
@@ -824,6 +830,10 @@ void Phase::modifySpecies(size_t k, shared_ptr<Species> spec)
             "New composition for '{}' does not match existing composition",
             spec->name);
     }
+    if (spec->charge != old->charge) {
+        throw CanteraError("Phase::modifySpecies",
+            "New charge for '{}' does not match existing charge", spec->name);
+    }
     m_species[spec->name] = spec;
     invalidateCache();
 }
diff --git a/src/thermo/ThermoPhase.cpp b/src/thermo/ThermoPhase.cpp
index 2b3993b..2ac973a 100644
--- a/src/thermo/ThermoPhase.cpp
+++ b/src/thermo/ThermoPhase.cpp
@@ -1057,6 +1057,22 @@ bool ThermoPhase::addSpecies(shared_ptr<Species> spec)
         throw CanteraError("ThermoPhase::addSpecies",
             "Species {} has no thermo data", spec->name);
     }
+    // Check the reference pressure before the species is added, so that the phase is
+    // unmodified if the species cannot be added
+    if (m_kk && fabs(refPressure() - spec->thermo->refPressure()) > 1e-6) {
+        bool ignored = false;
+        if (m_undefinedElementBehavior == UndefElement::ignore) {
+            for (const auto& [eName, stoich] : spec->composition) {
+                ignored |= (elementIndex(eName) == npos);
+            }
+        }
+        if (!ignored) {
+            throw CanteraError("ThermoPhase::addSpecies",
+                "Cannot add species {} with reference pressure {}.\n"
+                "Inconsistent with previously-added species with reference pressure {}.",
+                spec->name, spec->thermo->refPressure(), refPressure());
+        }
+    }
     bool added = Phase::addSpecies(spec);
     if (added) {
         spec->thermo->validate(spec->name);
@@ -1071,14 +1087,15 @@ void ThermoPhase::modifySpecies(size_t k, shared_ptr<Species> spec)
         throw CanteraError("ThermoPhase::modifySpecies",
             "Species {} has no thermo data", spec->name);
     }
+    shared_ptr<Species> old = species(k);
     Phase::modifySpecies(k, spec);
-    if (speciesName(k) != spec->name) {
-        throw CanteraError("ThermoPhase::modifySpecies",
-            "New species '{}' does not match existing species '{}' at index {}",
-                           spec->name, speciesName(k), k);
-    }
     spec->thermo->validate(spec->name);
-    m_spthermo.modifySpecies(k, spec->thermo);
+    try {
+        m_spthermo.modifySpecies(k, spec->thermo);
+    } catch (CanteraError&) {
+        Phase::modifySpecies(k, old); // leave the phase unmodified
+        throw;
+    }
 }
 
 void ThermoPhase::setParameters(const AnyMap& phaseNode, const AnyMap& rootNode)
-- 
2.43.0


From 66533b1aba604013380024f0205109acb76b01e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:49 +0000
Subject: [PATCH 17/64] fix: locks, index check and data size of sliced
 solution arrays

---
 src/base/SolutionArray.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index dba2af8..27f21f2 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -66,14 +66,13 @@ SolutionArray::SolutionArray(const SolutionArray& other,
                              const vector<int>& selected)
     : m_sol(other.m_sol)
     , m_size(selected.size())
-    , m_dataSize(other.m_data->size())
+    , m_dataSize(other.m_dataSize)
     , m_stride(other.m_stride)
     , m_data(other.m_data)
     , m_extra(other.m_extra)
     , m_order(other.m_order)
     , m_shared(true)
 {
-    m_sol->thermo()->addSpeciesLock();
     if (!other.m_shared) {
         // direct slicing is possible
         m_active = selected;
@@ -87,13 +86,16 @@ SolutionArray::SolutionArray(const SolutionArray& other,
     }
     for (auto loc : m_active) {
         if (loc < 0 || loc >= (int)m_dataSize) {
-            IndexError("SolutionArray::SolutionArray", "indices", loc, m_dataSize);
+            throw IndexError(
+                "SolutionArray::SolutionArray", "indices", loc, m_dataSize);
         }
     }
     set<int> unique(selected.begin(), selected.end());
     if (unique.size() < selected.size()) {
         throw CanteraError("SolutionArray::SolutionArray", "Indices must be unique.");
     }
+    // released by the destructor, which is only called if construction succeeds
+    m_sol->thermo()->addSpeciesLock();
 }
 
 SolutionArray::~SolutionArray()
-- 
2.43.0


From 0b7316f444cc3677733e1a3ae2c787c7907dac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 18/64] fix: Update density of VPStandardStateTP phases when
 the composition changes

---
 include/cantera/thermo/VPStandardStateTP.h | 3 +++
 src/thermo/GibbsExcessVPSSTP.cpp           | 2 +-
 src/thermo/VPStandardStateTP.cpp           | 9 +++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/VPStandardStateTP.h b/include/cantera/thermo/VPStandardStateTP.h
index 4070376..fe84d4a 100644
--- a/include/cantera/thermo/VPStandardStateTP.h
+++ b/include/cantera/thermo/VPStandardStateTP.h
@@ -162,6 +162,9 @@ protected:
      */
     virtual void calcDensity();
 
+    //! Overridden to keep the density consistent with the composition
+    void compositionChanged() override;
+
     //! Updates the standard state thermodynamic functions at the current T and
     //! P of the solution.
     /*!
diff --git a/src/thermo/GibbsExcessVPSSTP.cpp b/src/thermo/GibbsExcessVPSSTP.cpp
index 8c625b1..7ebf08c 100644
--- a/src/thermo/GibbsExcessVPSSTP.cpp
+++ b/src/thermo/GibbsExcessVPSSTP.cpp
@@ -23,8 +23,8 @@ namespace Cantera
 
 void GibbsExcessVPSSTP::compositionChanged()
 {
-    Phase::compositionChanged();
     getMoleFractions(moleFractions_.data());
+    VPStandardStateTP::compositionChanged();
 }
 
 // ------------ Mechanical Properties ------------------------------
diff --git a/src/thermo/VPStandardStateTP.cpp b/src/thermo/VPStandardStateTP.cpp
index 37d7e19..482a545 100644
--- a/src/thermo/VPStandardStateTP.cpp
+++ b/src/thermo/VPStandardStateTP.cpp
@@ -197,6 +197,15 @@ void VPStandardStateTP::setPressure(double p)
     updateStandardStateThermo();
 }
 
+void VPStandardStateTP::compositionChanged()
+{
+    ThermoPhase::compositionChanged();
+    // only after the standard states have been evaluated
+    if (m_Tlast_ss > 0.0 && m_PDSS_storage.size() == m_kk) {
+        calcDensity();
+    }
+}
+
 void VPStandardStateTP::calcDensity()
 {
     getPartialMolarVolumes(m_workS.data());
-- 
2.43.0


From 9caa37c0d7590f53ed22ecaaf95677730da871a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 19/64] fix: Keep cached properties of MultiTransport
 consistent with the state

Evaluating the thermal conductivity replaced the self-diffusion coefficients
returned by getBinaryDiffCoeffs, and returning to an earlier temperature left
the L matrix inputs at the last one.
---
 include/cantera/transport/MultiTransport.h |  4 ++++
 src/transport/MultiTransport.cpp           | 19 +++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/cantera/transport/MultiTransport.h b/include/cantera/transport/MultiTransport.h
index 937813b..87cfc9a 100644
--- a/include/cantera/transport/MultiTransport.h
+++ b/include/cantera/transport/MultiTransport.h
@@ -122,6 +122,10 @@ protected:
     //! Dense matrix for astar
     DenseMatrix m_astar;
 
+    //! Binary diffusion coefficients at unit pressure used in the L matrix, where the
+    //! self-diffusion coefficients on the diagonal are consistent with the viscosities
+    DenseMatrix m_bdiff_l;
+
     //! Dense matrix for bstar
     DenseMatrix m_bstar;
 
diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index fb98f4e..1721116 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -400,6 +400,7 @@ void MultiTransport::update_T()
     // redone, and the L matrix reevaluated.
     m_lmatrix_soln_ok = false;
     m_l0000_ok = false;
+    m_thermal_tlast = Undef;
 }
 
 void MultiTransport::update_C()
@@ -421,6 +422,7 @@ void MultiTransport::update_C()
 
 void MultiTransport::updateThermal_T()
 {
+    update_T();
     if (m_thermal_tlast == m_thermo->temperature()) {
         return;
     }
@@ -456,8 +458,9 @@ void MultiTransport::updateThermal_T()
     }
 
     double c = 1.2*GasConstant*m_temp;
+    m_bdiff_l = m_bdiff;
     for (size_t k = 0; k < m_nsp; k++) {
-        m_bdiff(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
+        m_bdiff_l(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
     }
 
     // Calculate the internal heat capacities by subtracting off the translational contributions
@@ -492,15 +495,15 @@ void MultiTransport::eval_L0000(const double* const x)
     for (size_t i = 0; i < m_nsp; i++) {
         // subtract-off the k=i term to account for the first delta
         // function in Eq. (12.121)
-        sum = -x[i]/m_bdiff(i,i);
+        sum = -x[i]/m_bdiff_l(i,i);
         for (size_t k = 0; k < m_nsp; k++) {
-            sum += x[k]/m_bdiff(i,k);
+            sum += x[k]/m_bdiff_l(i,k);
         }
 
         sum /= m_mw[i];
         for (size_t j = 0; j != m_nsp; ++j) {
             m_Lmatrix(i,j) = prefactor * x[j]
-                             * (m_mw[j] * sum + x[i]/m_bdiff(i,j));
+                             * (m_mw[j] * sum + x[i]/m_bdiff_l(i,j));
         }
         // diagonal term is zero
         m_Lmatrix(i,i) = 0.0;
@@ -517,7 +520,7 @@ void MultiTransport::eval_L0010(const double* const x)
         for (size_t i = 0; i < m_nsp; i++) {
             m_Lmatrix(i,j + m_nsp) = - prefactor * x[i] * xj * m_mw[i] *
                                      (1.2 * m_cstar(j,i) - 1.0) /
-                                     ((wj + m_mw[i]) * m_bdiff(j,i));
+                                     ((wj + m_mw[i]) * m_bdiff_l(j,i));
 
             // the next term is independent of "j";
             // need to do it for the "j,j" term
@@ -553,7 +556,7 @@ void MultiTransport::eval_L1010(const double* x)
         double sum = 0.0;
         for (size_t i = 0; i < m_nsp; i++) {
             double sumwij = m_mw[i] + m_mw[j];
-            double term1 = m_bdiff(i,j) * sumwij*sumwij;
+            double term1 = m_bdiff_l(i,j) * sumwij*sumwij;
             double term2 = fourmj*m_astar(i,j)*(1.0 + fiveover3pi*
                 (constant3 + (m_crot[i]/m_rotrelax[i]))); //  see Eq. (12.125)
 
@@ -581,7 +584,7 @@ void MultiTransport::eval_L1001(const double* x)
             for (size_t i = 0; i < m_nsp; i++) {
                 // see Eq. (12.127)
                 m_Lmatrix(i+m_nsp,j+2*m_nsp) = constant * m_astar(j,i) * x[i] /
-                                          ((m_mw[j] + m_mw[i]) * m_bdiff(j,i));
+                                          ((m_mw[j] + m_mw[i]) * m_bdiff_l(j,i));
                 sum += m_Lmatrix(i+m_nsp,j+2*m_nsp);
             }
             m_Lmatrix(j+m_nsp,j+2*m_nsp) += sum;
@@ -631,7 +634,7 @@ void MultiTransport::eval_L0101(const double* x)
             double sum = 0.0;
             for (size_t k = 0; k < m_nsp; k++) {
                 // see Eq. (12.131)
-                double diff_int = m_bdiff(i,k);
+                double diff_int = m_bdiff_l(i,k);
                 m_Lmatrix(k+2*m_nsp,i+2*m_nsp) = 0.0;
                 sum += x[k]/diff_int;
                 if (k != i) {
-- 
2.43.0


From 07eae83353f1a24de9f2ff9e75cb385e4b7a6dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 20/64] fix: Refresh reference state properties of
 MixtureFugacityTP when species are modified

---
 include/cantera/thermo/MixtureFugacityTP.h | 1 +
 src/thermo/MixtureFugacityTP.cpp           | 9 +++++++++
 src/thermo/ThermoPhase.cpp                 | 1 +
 3 files changed, 11 insertions(+)

diff --git a/include/cantera/thermo/MixtureFugacityTP.h b/include/cantera/thermo/MixtureFugacityTP.h
index 76431d7..2f03586 100644
--- a/include/cantera/thermo/MixtureFugacityTP.h
+++ b/include/cantera/thermo/MixtureFugacityTP.h
@@ -305,6 +305,7 @@ public:
     //! To see how they are used, see importPhase().
     //! @{
     bool addSpecies(shared_ptr<Species> spec) override;
+    void invalidateCache() override;
     //! @}
 
 protected:
diff --git a/src/thermo/MixtureFugacityTP.cpp b/src/thermo/MixtureFugacityTP.cpp
index 39c1697..ec5237a 100644
--- a/src/thermo/MixtureFugacityTP.cpp
+++ b/src/thermo/MixtureFugacityTP.cpp
@@ -718,6 +718,15 @@ double MixtureFugacityTP::dpdVCalc(double TKelvin, double molarVol, double& pres
     throw NotImplementedError("MixtureFugacityTP::dpdVCalc");
 }
 
+void MixtureFugacityTP::invalidateCache()
+{
+    ThermoPhase::invalidateCache();
+    // The reference state properties are used without checking whether they are current
+    if (m_kk && m_g0_RT.size() == m_kk && m_spthermo.ready(m_kk)) {
+        _updateReferenceStateThermo();
+    }
+}
+
 void MixtureFugacityTP::_updateReferenceStateThermo() const
 {
     double Tnow = temperature();
diff --git a/src/thermo/ThermoPhase.cpp b/src/thermo/ThermoPhase.cpp
index 2ac973a..a40c276 100644
--- a/src/thermo/ThermoPhase.cpp
+++ b/src/thermo/ThermoPhase.cpp
@@ -1096,6 +1096,7 @@ void ThermoPhase::modifySpecies(size_t k, shared_ptr<Species> spec)
         Phase::modifySpecies(k, old); // leave the phase unmodified
         throw;
     }
+    invalidateCache();
 }
 
 void ThermoPhase::setParameters(const AnyMap& phaseNode, const AnyMap& rootNode)
-- 
2.43.0


From 7e5f0009f3021b06c9c342d08c505715f5197de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 21/64] fix: Leave pure fluids unchanged when a requested state
 can't be set

---
 include/cantera/tpx/Sub.h     |  3 +++
 src/thermo/PureFluidPhase.cpp |  2 +-
 src/tpx/Sub.cpp               | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/cantera/tpx/Sub.h b/include/cantera/tpx/Sub.h
index 4df2e1d..9c1c42c 100644
--- a/include/cantera/tpx/Sub.h
+++ b/include/cantera/tpx/Sub.h
@@ -174,6 +174,9 @@ public:
     void Set(PropertyPair::type XY, double x0, double y0);
 
 protected:
+    //! Implementation of Set(), which may leave an incomplete state on error
+    void setPair(PropertyPair::type XY, double x0, double y0);
+
     double T = Undef;
     double Rho = Undef;
     double Tslast = Undef;
diff --git a/src/thermo/PureFluidPhase.cpp b/src/thermo/PureFluidPhase.cpp
index 3e45009..b6e5704 100644
--- a/src/thermo/PureFluidPhase.cpp
+++ b/src/thermo/PureFluidPhase.cpp
@@ -131,8 +131,8 @@ void PureFluidPhase::setPressure(double p)
 
 void PureFluidPhase::setTemperature(double T)
 {
-    ThermoPhase::setTemperature(T);
     Set(tpx::PropertyPair::TV, T, m_sub->v());
+    ThermoPhase::setTemperature(T);
 }
 
 void PureFluidPhase::setDensity(double rho)
diff --git a/src/tpx/Sub.cpp b/src/tpx/Sub.cpp
index b9c9ea8..2b108d1 100644
--- a/src/tpx/Sub.cpp
+++ b/src/tpx/Sub.cpp
@@ -331,6 +331,20 @@ static const double TolAbsT = 1.e-3;
 static const double TolRel = 1.e-8;
 
 void Substance::Set(PropertyPair::type XY, double x0, double y0)
+{
+    double T_save = T;
+    double Rho_save = Rho;
+    try {
+        setPair(XY, x0, y0);
+    } catch (...) {
+        // a request that can't be satisfied leaves the state unchanged
+        T = T_save;
+        Rho = Rho_save;
+        throw;
+    }
+}
+
+void Substance::setPair(PropertyPair::type XY, double x0, double y0)
 {
     double temp;
 
-- 
2.43.0


From 9408fa8fce27bbb3c31d3bbbb569785b52be2515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 22/64] fix: Leave WaterSSTP unchanged when a requested
 pressure can't be set

---
 src/thermo/WaterSSTP.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thermo/WaterSSTP.cpp b/src/thermo/WaterSSTP.cpp
index cf8f09c..4619dec 100644
--- a/src/thermo/WaterSSTP.cpp
+++ b/src/thermo/WaterSSTP.cpp
@@ -251,6 +251,7 @@ void WaterSSTP::setPressure(double p)
             waterState = WATER_LIQUID;
             dens = 1000.;
         } else if (!m_allowGasPhase) {
+            m_sub.setState_TD(T, dens); // changed by psat()
             throw CanteraError("WaterSSTP::setPressure",
                 "Model assumes liquid phase; pressure p = {} lies below\n"
                 "the saturation pressure (P_sat = {}).", p, pp);
@@ -259,6 +260,7 @@ void WaterSSTP::setPressure(double p)
 
     double dd = m_sub.density(T, p, waterState, dens);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, density());
         throw CanteraError("WaterSSTP::setPressure", "Error");
     }
     setDensity(dd);
-- 
2.43.0


From f4b468232a51c46a1019eaeec39f617ab5425572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 23/64] fix: Recalculate coverage-dependent properties when the
 temperature changes

---
 include/cantera/thermo/CoverageDependentSurfPhase.h | 3 +++
 src/thermo/CoverageDependentSurfPhase.cpp           | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/CoverageDependentSurfPhase.h b/include/cantera/thermo/CoverageDependentSurfPhase.h
index 8836200..0884413 100644
--- a/include/cantera/thermo/CoverageDependentSurfPhase.h
+++ b/include/cantera/thermo/CoverageDependentSurfPhase.h
@@ -427,6 +427,9 @@ private:
     //! Last value of the state number processed.
     mutable int m_stateNumlast;
 
+    //! Temperature of the last evaluation of the coverage-dependent contributions
+    mutable double m_tlast_cov = 0.0;
+
     //! Update the species coverage-dependent thermodynamic functions.
     /*!
      * The coverage-dependent enthalpy and entropy are only re-evaluated
diff --git a/src/thermo/CoverageDependentSurfPhase.cpp b/src/thermo/CoverageDependentSurfPhase.cpp
index b942c39..b7befc1 100644
--- a/src/thermo/CoverageDependentSurfPhase.cpp
+++ b/src/thermo/CoverageDependentSurfPhase.cpp
@@ -457,7 +457,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
 {
     int stateNumnow = stateMFNumber();
     double tnow = temperature();
-    if (m_stateNumlast != stateNumnow || m_tlast != tnow) {
+    if (m_stateNumlast != stateNumnow || m_tlast_cov != tnow) {
         for (size_t k = 0; k < m_kk; k++) {
             m_h_cov[k] = 0.0;
             m_s_cov[k] = 0.0;
@@ -524,6 +524,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
             m_mu_cov[k] = m_h_cov[k] - tnow * m_s_cov[k];
         }
         m_stateNumlast = stateNumnow;
+        m_tlast_cov = tnow;
     }
 }
 
-- 
2.43.0


From 4d8c6be02a755564b785245488e99264e4c543b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:50 +0000
Subject: [PATCH 24/64] fix: periodic functions of negative arguments use the
 matching part of the period

---
 include/cantera/numerics/Func1.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cantera/numerics/Func1.h b/include/cantera/numerics/Func1.h
index 44db9f5..c6eadf8 100644
--- a/include/cantera/numerics/Func1.h
+++ b/include/cantera/numerics/Func1.h
@@ -831,8 +831,7 @@ public:
     }
 
     double eval(double t) const override {
-        int np = int(t/m_c);
-        double time = t - np*m_c;
+        double time = t - std::floor(t / m_c) * m_c;
         return m_f1->eval(time);
     }
 };
-- 
2.43.0


From 252a5b6a136d9aa358d4dec7ddf64962ac67e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:50 +0000
Subject: [PATCH 25/64] fix: tabulated-previous functions switch at the
 tabulated time, not after it

---
 src/numerics/Func1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index d4b93e1..4176e42 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -370,7 +370,7 @@ double Tabulated1::eval(double t) const {
         return m_fvec[siz-1];
     } else {
         size_t ix = 0;
-        while (t > m_tvec[ix+1]) {
+        while (t >= m_tvec[ix+1]) {
             ix++;
         }
         if (m_isLinear) {
-- 
2.43.0


From c82e2fce82ed2f18914c37d9eb8ecfdcb1c22e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:50 +0000
Subject: [PATCH 26/64] fix: derivative of a tabulated function is zero ahead
 of the first point

---
 src/numerics/Func1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index 4176e42..bcde01d 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -391,6 +391,9 @@ shared_ptr<Func1> Tabulated1::derivative() const {
     if (m_isLinear) {
         // piece-wise continuous derivative
         if (siz>1) {
+            // function is constant ahead of the first tabulated value
+            tvec.push_back(m_tvec[0] - (m_tvec[1] - m_tvec[0]));
+            dvec.push_back(0.);
             for (size_t i=1; i<siz; i++) {
                 double d = (m_fvec[i] - m_fvec[i-1]) /
                   (m_tvec[i] - m_tvec[i-1]);
-- 
2.43.0


From 0b593d6d63a49322e113c78f4c0686f9d3e67635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:50 +0000
Subject: [PATCH 27/64] fix: powers of powers are combined only where that does
 not change the value

---
 src/numerics/Func1.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index bcde01d..a5e96ba 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -746,7 +746,8 @@ shared_ptr<Func1> newCompositeFunction(shared_ptr<Func1> f1, shared_ptr<Func1> f
     if (isPow(f1) && f1->c() == 0.0) {
         return make_shared<Const1>(1.);
     }
-    if (isPow(f1) && isPow(f2)) {
+    if (isPow(f1) && isPow(f2) && f1->c() == std::round(f1->c())) {
+        // not valid for negative arguments if the outer exponent is not an integer
         return make_shared<Pow1>(f1->c() * f2->c());
     }
     return make_shared<Composite1>(f1, f2);
-- 
2.43.0


From 53e02539b9231dcfb7e5470adebfdbe784c7ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:47 +0000
Subject: [PATCH 28/64] fix: Array2D::appendColumn wrote the new column out of
 bounds

---
 src/base/Array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/Array.cpp b/src/base/Array.cpp
index 9d0c346..93d84a1 100644
--- a/src/base/Array.cpp
+++ b/src/base/Array.cpp
@@ -56,7 +56,7 @@ void Array2D::appendColumn(const vector<double>& c)
     m_ncols++;
     m_data.resize(m_nrows * m_ncols);
     for (size_t m = 0; m < m_nrows; m++) {
-        value(m_ncols, m) = c[m];
+        value(m, m_ncols - 1) = c[m];
     }
 }
 
@@ -65,7 +65,7 @@ void Array2D::appendColumn(const double* const c)
     m_ncols++;
     m_data.resize(m_nrows * m_ncols);
     for (size_t m = 0; m < m_nrows; m++) {
-        value(m_ncols, m) = c[m];
+        value(m, m_ncols - 1) = c[m];
     }
 }
 
-- 
2.43.0


From 5c494b722e4e4382145847ed89b6fb6e72ad6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 29/64] fix: BandMatrix entries outside of the band stay zero
 when assigned

---
 src/numerics/BandMatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/numerics/BandMatrix.cpp b/src/numerics/BandMatrix.cpp
index 110cd5d..cff1b4f 100644
--- a/src/numerics/BandMatrix.cpp
+++ b/src/numerics/BandMatrix.cpp
@@ -149,6 +149,7 @@ double& BandMatrix::value(size_t i, size_t j)
 {
     m_factored = false;
     if (i + m_ku < j || i > j + m_kl) {
+        m_zero = 0.0; // discard values assigned to elements outside of the band
         return m_zero;
     }
     return data[index(i,j)];
-- 
2.43.0


From 44d372e3ffec79fb622162fa37483473822ce127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 30/64] fix: MultiJac::reset left the diagonal of the earlier
 steady-state Jacobian

---
 src/oneD/MultiJac.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oneD/MultiJac.cpp b/src/oneD/MultiJac.cpp
index 94f2684..5f83f59 100644
--- a/src/oneD/MultiJac.cpp
+++ b/src/oneD/MultiJac.cpp
@@ -21,6 +21,7 @@ MultiJac::MultiJac(OneDim& r)
 void MultiJac::reset()
 {
     m_mat.bfill(0.0);
+    m_ssdiag.assign(m_dim, 0.0);
     m_age = 10000;
 }
 
@@ -28,7 +29,7 @@ void MultiJac::initialize(size_t nVars)
 {
     m_dim = nVars;
     m_mat.resize(m_dim, m_mat.nSubDiagonals(), m_mat.nSuperDiagonals());
-    m_ssdiag.resize(m_dim);
+    m_ssdiag.assign(m_dim, 0.0);
     m_mask.resize(m_dim);
 }
 
-- 
2.43.0


From 14fbf9143b51b4dabb6bf392ff9ed6be43689620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:17 +0000
Subject: [PATCH 31/64] fix: SurfPhase concentrations ignored the number of
 sites a species occupies

---
 include/cantera/thermo/SurfPhase.h |  4 ++++
 src/thermo/SurfPhase.cpp           | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/cantera/thermo/SurfPhase.h b/include/cantera/thermo/SurfPhase.h
index 7d4aa4b..25c2ab2 100644
--- a/include/cantera/thermo/SurfPhase.h
+++ b/include/cantera/thermo/SurfPhase.h
@@ -307,6 +307,10 @@ public:
 protected:
     void compositionChanged() override;
 
+    //! Update the density, which depends on the number of sites occupied by the
+    //! species.
+    void updateDensity();
+
     //! Surface site density (kmol m-2)
     double m_n0 = 1.0;
 
diff --git a/src/thermo/SurfPhase.cpp b/src/thermo/SurfPhase.cpp
index 5432272..8131b3a 100644
--- a/src/thermo/SurfPhase.cpp
+++ b/src/thermo/SurfPhase.cpp
@@ -208,8 +208,8 @@ void SurfPhase::setSiteDensity(double n0)
                            "Site density must be positive. Got {}", n0);
     }
     m_n0 = n0;
-    assignDensity(n0 * meanMolecularWeight());
     m_logn0 = log(m_n0);
+    updateDensity();
 }
 
 void SurfPhase::setCoverages(const double* theta)
@@ -297,7 +297,21 @@ void SurfPhase::setState(const AnyMap& state) {
 void SurfPhase::compositionChanged()
 {
     ThermoPhase::compositionChanged();
-    assignDensity(m_n0 * meanMolecularWeight());
+    updateDensity();
+}
+
+void SurfPhase::updateDensity()
+{
+    // Average number of sites occupied by one species, as C_k = n0 theta_k / s_k
+    double sum_X = 0.0;
+    double sum_X_s = 0.0;
+    for (size_t k = 0; k < m_speciesSize.size(); k++) {
+        double X = moleFraction(k);
+        sum_X += X;
+        sum_X_s += X * size(k);
+    }
+    double meanSize = (sum_X > 0.0) ? sum_X_s / sum_X : 1.0;
+    assignDensity(m_n0 * meanMolecularWeight() / meanSize);
 }
 
 void SurfPhase::_updateThermo(bool force) const
-- 
2.43.0


From 9085b903e1233e6fa4f41fc409ffbab43fa1aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:17 +0000
Subject: [PATCH 32/64] fix: production rates stayed frozen in reactors whose
 chemistry was disabled after use

---
 include/cantera/zeroD/Reactor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cantera/zeroD/Reactor.h b/include/cantera/zeroD/Reactor.h
index 5266687..3029da6 100644
--- a/include/cantera/zeroD/Reactor.h
+++ b/include/cantera/zeroD/Reactor.h
@@ -68,6 +68,10 @@ public:
 
     void setChemistry(bool cflag=true) override {
         m_chem = cflag;
+        if (!cflag) {
+            // production rates are not evaluated while the chemistry is disabled
+            m_wdot.assign(m_wdot.size(), 0.0);
+        }
     }
 
     //! Returns `true` if changes in the reactor composition due to chemical reactions
-- 
2.43.0


From c57fa853a699bdf05e14dc149cb8ffe700dc6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:17 +0000
Subject: [PATCH 33/64] fix: MassFlowController::setMassFlowRate deleted a time
 function owned by the caller

---
 src/zeroD/flowControllers.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/zeroD/flowControllers.cpp b/src/zeroD/flowControllers.cpp
index b58337c..f3b23bf 100644
--- a/src/zeroD/flowControllers.cpp
+++ b/src/zeroD/flowControllers.cpp
@@ -12,9 +12,7 @@ namespace Cantera
 
 void MassFlowController::setMassFlowRate(double mdot)
 {
-    if (m_tfunc) {
-        delete m_tfunc;
-    }
+    m_tfunc = nullptr; // owned by the caller
     m_coeff = mdot;
 }
 
-- 
2.43.0


From ff90d7e8ce683661e138addcb067525b4de41a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:18 +0000
Subject: [PATCH 34/64] fix: outflow of mole reactors used the species order of
 the downstream phase

---
 src/zeroD/ConstPressureMoleReactor.cpp         | 2 +-
 src/zeroD/IdealGasConstPressureMoleReactor.cpp | 2 +-
 src/zeroD/IdealGasMoleReactor.cpp              | 2 +-
 src/zeroD/MoleReactor.cpp                      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 00c6261..f141702 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -86,7 +86,7 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
         dHdt -= outlet->massFlowRate() * m_enthalpy;
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * m_thermo->massFraction(n) * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasConstPressureMoleReactor.cpp b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
index 757a6cb..f3586e3 100644
--- a/src/zeroD/IdealGasConstPressureMoleReactor.cpp
+++ b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
@@ -96,7 +96,7 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * m_thermo->massFraction(n) * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasMoleReactor.cpp b/src/zeroD/IdealGasMoleReactor.cpp
index 5586a7c..d1c3105 100644
--- a/src/zeroD/IdealGasMoleReactor.cpp
+++ b/src/zeroD/IdealGasMoleReactor.cpp
@@ -127,7 +127,7 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * m_thermo->massFraction(n) * imw[n];
         }
         double mdot = outlet->massFlowRate();
         mcvdTdt -= mdot * m_pressure * m_vol / m_mass; // flow work
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 4859a99..dd598d3 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -258,7 +258,7 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * m_thermo->massFraction(n) * imw[n];
         }
         // energy update based on mass flow
         double mdot = outlet->massFlowRate();
-- 
2.43.0


From 308b08e95254736a6e07b3dc0694f9bec2009a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:18 +0000
Subject: [PATCH 35/64] fix: MoleReactor divided surface production rates by
 the size of the species

---
 src/zeroD/MoleReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index dd598d3..2fbc1fc 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -70,7 +70,7 @@ void MoleReactor::evalSurfaces(double* LHS, double* RHS, double* sdot)
         S->syncState();
         kin->getNetProductionRates(&m_work[0]);
         for (size_t k = 0; k < nk; k++) {
-            RHS[loc + k] = m_work[k] * wallarea / surf->size(k);
+            RHS[loc + k] = m_work[k] * wallarea;
         }
         loc += nk;
 
-- 
2.43.0


From 5773bbecccf687b52852e2bc1fa94f19f8f00d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:46 +0000
Subject: [PATCH 36/64] fix: reactors added after initialisation were not part
 of the network's state vector

---
 src/zeroD/ReactorNet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index e3ea679..d723f43 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -299,6 +299,7 @@ void ReactorNet::addReactor(Reactor& r)
     m_timeIsIndependent = r.timeIsIndependent();
     r.setNetwork(this);
     m_reactors.push_back(&r);
+    m_init = false; // the layout of the state vector has changed
     if (!m_integ) {
         m_integ.reset(newIntegrator(r.isOde() ? "CVODE" : "IDA"));
         // use backward differencing, with a full Jacobian computed
-- 
2.43.0


From bb3b7df9278336aa19c7f0deaab538e778d5ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:46 +0000
Subject: [PATCH 37/64] fix: reactors with the energy equation disabled took
 the temperature of the shared phase

---
 src/zeroD/ConstPressureMoleReactor.cpp | 2 +-
 src/zeroD/ConstPressureReactor.cpp     | 2 +-
 src/zeroD/MoleReactor.cpp              | 2 +-
 src/zeroD/Reactor.cpp                  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index f141702..9f6fb81 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -48,7 +48,7 @@ void ConstPressureMoleReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[0] / m_mass, m_pressure);
     } else {
-        m_thermo->setPressure(m_pressure);
+        m_thermo->setState_TP(temperature(), m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
     updateConnected(false);
diff --git a/src/zeroD/ConstPressureReactor.cpp b/src/zeroD/ConstPressureReactor.cpp
index c584688..6e4301a 100644
--- a/src/zeroD/ConstPressureReactor.cpp
+++ b/src/zeroD/ConstPressureReactor.cpp
@@ -52,7 +52,7 @@ void ConstPressureReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[1]/m_mass, m_pressure);
     } else {
-        m_thermo->setPressure(m_pressure);
+        m_thermo->setState_TP(temperature(), m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
     updateConnected(false);
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 2fbc1fc..9e1e2f5 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -216,7 +216,7 @@ void MoleReactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
-        m_thermo->setDensity(m_mass / m_vol);
+        m_thermo->setState_TD(temperature(), m_mass / m_vol);
     }
     updateConnected(true);
     updateSurfaceState(y + m_nsp + m_sidx);
diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index 7fac0ec..868c6e8 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -166,7 +166,7 @@ void Reactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
-        m_thermo->setDensity(m_mass/m_vol);
+        m_thermo->setState_TD(temperature(), m_mass / m_vol);
     }
 
     updateConnected(true);
-- 
2.43.0


From ca765539252431af56febf286a241b4c656caea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 38/64] fix: MultiPhase::setPressure used an uninitialised
 mixture

---
 include/cantera/equil/MultiPhase.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cantera/equil/MultiPhase.h b/include/cantera/equil/MultiPhase.h
index 33d9a27..0e860d2 100644
--- a/include/cantera/equil/MultiPhase.h
+++ b/include/cantera/equil/MultiPhase.h
@@ -417,6 +417,9 @@ public:
      * @param P Set the pressure in the MultiPhase object (Pa)
      */
     void setPressure(double P) {
+        if (!m_init) {
+            init();
+        }
         m_press = P;
         updatePhases();
     }
-- 
2.43.0


From 8615c7aad92d9ced12de3d0686941fbb037b1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 39/64] fix: clearing a cabinet stopped at the first deleted
 object

---
 src/clib/Cabinet.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/clib/Cabinet.h b/src/clib/Cabinet.h
index fba0977..86f27ba 100644
--- a/src/clib/Cabinet.h
+++ b/src/clib/Cabinet.h
@@ -90,7 +90,9 @@ public:
     static int clear() {
         dataRef data = getData();
         for (size_t i = 0; i < data.size(); i++) {
-            del(static_cast<int>(i));
+            if (data[i]) {
+                del(static_cast<int>(i));
+            }
         }
         return 0;
     }
-- 
2.43.0


From 54eba0cf1c8317fab577650539fb410ca3cc8bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 40/64] fix: soln_setTransportModel lost the transport manager
 when the new model was refused

---
 src/clib/ct.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/clib/ct.cpp b/src/clib/ct.cpp
index 206ad20..8ea0cfe 100644
--- a/src/clib/ct.cpp
+++ b/src/clib/ct.cpp
@@ -191,9 +191,14 @@ extern "C" {
     {
         try {
             auto soln = SolutionCabinet::at(n);
-            TransportCabinet::del(
-                TransportCabinet::index(*(soln->transport()), n));
+            int old = -1;
+            if (soln->transport()) {
+                old = TransportCabinet::index(*(soln->transport()), n);
+            }
             soln->setTransportModel(model);
+            if (old >= 0) {
+                TransportCabinet::del(old);
+            }
             return TransportCabinet::add(soln->transport(), n);
         } catch (...) {
             return handleAllExceptions(-1, ERR);
-- 
2.43.0


From a1ffb3128454c2bd6f0c3a9368ac8c098d8408be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 41/64] fix: kin_start read beyond the list of phases

---
 src/clib/ct.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/clib/ct.cpp b/src/clib/ct.cpp
index 8ea0cfe..a0f6b73 100644
--- a/src/clib/ct.cpp
+++ b/src/clib/ct.cpp
@@ -1137,7 +1137,9 @@ extern "C" {
     size_t kin_start(int n, int p)
     {
         try {
-            return KineticsCabinet::at(n)->kineticsSpeciesIndex(0,p);
+            auto& kin = KineticsCabinet::at(n);
+            kin->checkPhaseIndex(p);
+            return kin->kineticsSpeciesIndex(0, p);
         } catch (...) {
             return handleAllExceptions(npos, npos);
         }
-- 
2.43.0


From 1115cab529b9621b1b7b243306dec42b9458b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 42/64] fix: kin_phase never found the handle of the phase

---
 src/clib/ct.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/clib/ct.cpp b/src/clib/ct.cpp
index a0f6b73..f041eee 100644
--- a/src/clib/ct.cpp
+++ b/src/clib/ct.cpp
@@ -1408,7 +1408,19 @@ extern "C" {
         try {
             auto& kin = KineticsCabinet::at(n);
             kin->checkPhaseIndex(i);
-            return ThermoCabinet::index(kin->thermo(i));
+            auto phase = kin->phase(i);
+            int id = ThermoCabinet::index(*phase, KineticsCabinet::parent(n));
+            // phases of adjacent solutions have handles with other parents
+            for (int m = ThermoCabinet::size() - 1; id < 0 && m >= 0; m--) {
+                if (ThermoCabinet::index(*phase, ThermoCabinet::parent(m)) == m) {
+                    id = m;
+                }
+            }
+            if (id < 0) {
+                throw CanteraError("kin_phase", "Phase '{}' has no handle.",
+                                   phase->name());
+            }
+            return id;
         } catch (...) {
             return handleAllExceptions(npos, npos);
         }
-- 
2.43.0


From b3462333517092336d65eaf9778fbc626a0a9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 43/64] fix: one-dimensional C interface functions did not
 check indices

---
 src/clib/ctonedim.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/clib/ctonedim.cpp b/src/clib/ctonedim.cpp
index 102cf20..2635d69 100644
--- a/src/clib/ctonedim.cpp
+++ b/src/clib/ctonedim.cpp
@@ -298,7 +298,11 @@ extern "C" {
     double bdry_massFraction(int i, int k)
     {
         try {
-            return DomainCabinet::as<Boundary1D>(i)->massFraction(k);
+            auto bdry = DomainCabinet::as<Boundary1D>(i);
+            if (k < 0 || static_cast<size_t>(k) >= bdry->nSpecies()) {
+                throw IndexError("bdry_massFraction", "species", k, bdry->nSpecies());
+            }
+            return bdry->massFraction(k);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
         }
@@ -443,7 +447,11 @@ extern "C" {
     int sim1D_setValue(int i, int dom, int comp, int localPoint, double value)
     {
         try {
-            SimCabinet::at(i)->setValue(dom, comp, localPoint, value);
+            auto& sim = SimCabinet::at(i);
+            sim->checkDomainIndex(dom);
+            sim->domain(dom).checkComponentIndex(comp);
+            sim->domain(dom).checkPointIndex(localPoint);
+            sim->setValue(dom, comp, localPoint, value);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -537,7 +545,11 @@ extern "C" {
                                 double slope, double curve, double prune)
     {
         try {
-            SimCabinet::at(i)->setRefineCriteria(dom, ratio, slope, curve, prune);
+            auto& sim = SimCabinet::at(i);
+            if (dom >= 0) {
+                sim->checkDomainIndex(dom);
+            }
+            sim->setRefineCriteria(dom, ratio, slope, curve, prune);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -547,7 +559,11 @@ extern "C" {
     int sim1D_setGridMin(int i, int dom, double gridmin)
     {
         try {
-            SimCabinet::at(i)->setGridMin(dom, gridmin);
+            auto& sim = SimCabinet::at(i);
+            if (dom >= 0) {
+                sim->checkDomainIndex(dom);
+            }
+            sim->setGridMin(dom, gridmin);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -599,6 +615,7 @@ extern "C" {
             auto& sim = SimCabinet::at(i);
             sim->checkDomainIndex(idom);
             sim->domain(idom).checkComponentIndex(icomp);
+            sim->domain(idom).checkPointIndex(localPoint);
             return sim->value(idom, icomp, localPoint);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
@@ -611,6 +628,7 @@ extern "C" {
             auto& sim = SimCabinet::at(i);
             sim->checkDomainIndex(idom);
             sim->domain(idom).checkComponentIndex(icomp);
+            sim->domain(idom).checkPointIndex(localPoint);
             return sim->workValue(idom, icomp, localPoint);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
-- 
2.43.0


From a042fd0949e6e544a1229529d97962c657ab7ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 44/64] fix: reactor_massFraction read beyond the list of
 species

---
 src/clib/ctreactor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/clib/ctreactor.cpp b/src/clib/ctreactor.cpp
index 900758b..a138232 100644
--- a/src/clib/ctreactor.cpp
+++ b/src/clib/ctreactor.cpp
@@ -165,7 +165,9 @@ extern "C" {
     double reactor_massFraction(int i, int k)
     {
         try {
-            return ReactorCabinet::at(i)->massFraction(k);
+            auto& reactor = ReactorCabinet::at(i);
+            reactor->contents().checkSpeciesIndex(k);
+            return reactor->massFraction(k);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
         }
-- 
2.43.0


From 8acdd986cd6e1f7414f9802273b74d5addc60a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 45/64] fix: reactor surfaces without kinetics crashed on
 sensitivity reactions, failed setKinetics left half a change

---
 src/zeroD/ReactorSurface.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/zeroD/ReactorSurface.cpp b/src/zeroD/ReactorSurface.cpp
index f811eb4..184c9b4 100644
--- a/src/zeroD/ReactorSurface.cpp
+++ b/src/zeroD/ReactorSurface.cpp
@@ -36,18 +36,20 @@ void ReactorSurface::setArea(double a)
 }
 
 void ReactorSurface::setKinetics(Kinetics* kin) {
-    m_kinetics = kin;
     if (kin == nullptr) {
+        m_kinetics = nullptr;
         m_thermo = nullptr;
         return;
     }
 
-    m_thermo = dynamic_cast<SurfPhase*>(&kin->thermo(0));
-    if (m_thermo == nullptr) {
+    auto surf = dynamic_cast<SurfPhase*>(&kin->thermo(0));
+    if (surf == nullptr) {
         throw CanteraError("ReactorSurface::setKinetics",
             "Specified kinetics manager does not represent a surface "
             "kinetics mechanism.");
     }
+    m_kinetics = kin;
+    m_thermo = surf;
     m_cov.resize(m_thermo->nSpecies());
     m_thermo->getCoverages(m_cov.data());
 }
@@ -87,6 +89,10 @@ void ReactorSurface::syncState()
 
 void ReactorSurface::addSensitivityReaction(size_t i)
 {
+    if (!m_kinetics || !m_reactor) {
+        throw CanteraError("ReactorSurface::addSensitivityReaction",
+            "Surface '{}' has no kinetics or is not installed on a reactor.", m_name);
+    }
     if (i >= m_kinetics->nReactions()) {
         throw CanteraError("ReactorSurface::addSensitivityReaction",
                            "Reaction number out of range ({})", i);
-- 
2.43.0


From f447d41aefec2db587e5f580d251912bdf19360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:54 +0000
Subject: [PATCH 46/64] fix: the index of a domain outside a simulation was not
 initialised

---
 include/cantera/oneD/Domain1D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cantera/oneD/Domain1D.h b/include/cantera/oneD/Domain1D.h
index d009f49..7f16c3c 100644
--- a/include/cantera/oneD/Domain1D.h
+++ b/include/cantera/oneD/Domain1D.h
@@ -575,7 +575,7 @@ protected:
     //! Parent OneDim simulation containing this and adjacent domains
     OneDim* m_container = nullptr;
 
-    size_t m_index; //!< Left-to-right location of this domain
+    size_t m_index = npos; //!< Left-to-right location of this domain
 
     //! Starting location within the solution vector for unknowns that
     //! correspond to this domain
-- 
2.43.0


From d78d98a7ff3a1c5d14655efad866672d2a17ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:06 +0000
Subject: [PATCH 47/64] fix: a one-dimensional simulation without domains
 crashed

---
 src/oneD/OneDim.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oneD/OneDim.cpp b/src/oneD/OneDim.cpp
index b88e4af..d9a5604 100644
--- a/src/oneD/OneDim.cpp
+++ b/src/oneD/OneDim.cpp
@@ -24,6 +24,9 @@ OneDim::OneDim()
 
 OneDim::OneDim(vector<shared_ptr<Domain1D>>& domains)
 {
+    if (domains.empty()) {
+        throw CanteraError("OneDim::OneDim", "At least one domain is required.");
+    }
     // create a Newton iterator, and add each domain.
     m_newt = make_unique<MultiNewton>(1);
     m_state = make_shared<vector<double>>();
-- 
2.43.0


From baa438b9f914b83c6d24772b5a1f2184b4d469d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:56 +0000
Subject: [PATCH 48/64] fix: moving a solution array to its buffered location
 did not restore the state there

---
 src/base/SolutionArray.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 27f21f2..632218d 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -780,8 +780,6 @@ void SolutionArray::setLoc(int loc, bool restore)
                 "Both current and buffered indices are invalid.");
         }
         return;
-    } else if (static_cast<size_t>(m_active[loc_]) == m_loc) {
-        return;
     } else if (loc_ >= m_size) {
         throw IndexError("SolutionArray::setLoc", "indices", loc_, m_size);
     }
-- 
2.43.0


From 28b30019114021724dd4b8a4a2510e84f3574f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:27 +0000
Subject: [PATCH 49/64] fix: data of a reordered slice of a solution array did
 not match its locations

---
 src/base/SolutionArray.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 632218d..36ecc44 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -105,6 +105,20 @@ SolutionArray::~SolutionArray()
 
 namespace { // restrict scope of helper functions to local translation unit
 
+//! Check whether a list of locations differs from all `size` entries in their own order
+bool isSliced(const vector<int>& slice, size_t size)
+{
+    if (slice.size() != size) {
+        return true;
+    }
+    for (size_t k = 0; k < size; ++k) {
+        if (slice[k] != static_cast<int>(k)) {
+            return true;
+        }
+    }
+    return false;
+}
+
 template<class T>
 void resetSingle(AnyValue& extra, const vector<int>& slice);
 
@@ -683,7 +697,7 @@ AnyValue SolutionArray::getComponent(const string& name) const
         if (extra.is<void>()) {
             return AnyValue();
         }
-        if (m_size == m_dataSize) {
+        if (!isSliced(m_active, m_dataSize)) {
             return extra; // slicing not necessary
         }
         if (extra.isVector<long int>()) {
@@ -1518,7 +1532,7 @@ void SolutionArray::_setExtra(const string& name, const AnyValue& data)
 
     // uninitialized component
     if (extra.is<void>()) {
-        if (m_size != m_dataSize) {
+        if (isSliced(m_active, m_dataSize)) {
             throw CanteraError("SolutionArray::_setExtra",
                 "Unable to replace '{}' for sliced data.", name);
         }
@@ -2023,11 +2037,12 @@ template<class T>
 void setSingle(AnyValue& extra, const AnyValue& data, const vector<int>& slice)
 {
     size_t size = slice.size();
-    if (extra.vectorSize() == size && data.vectorSize() == size) {
+    bool sliced = isSliced(slice, size);
+    if (!sliced && extra.vectorSize() == size && data.vectorSize() == size) {
         extra = data; // no slicing necessary; type can change
         return;
     }
-    if (extra.matrixShape().first == size && data.vectorSize() == size) {
+    if (!sliced && extra.matrixShape().first == size && data.vectorSize() == size) {
         extra = data; // no slicing necessary; shape and type can change
         return;
     }
@@ -2058,11 +2073,12 @@ void setMulti(AnyValue& extra, const AnyValue& data, const vector<int>& slice)
     }
     size_t size = slice.size();
     auto [rows, cols] = data.matrixShape();
-    if (extra.matrixShape().first == size && rows == size) {
+    bool sliced = isSliced(slice, size);
+    if (!sliced && extra.matrixShape().first == size && rows == size) {
         extra = data; // no slicing necessary; type can change
         return;
     }
-    if (extra.vectorSize() == size && rows == size) {
+    if (!sliced && extra.vectorSize() == size && rows == size) {
         extra = data; // no slicing necessary; shape and type can change
         return;
     }
-- 
2.43.0


From 2a73f21aa6f5670ca3ea970a98a41288faa59534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:27 +0000
Subject: [PATCH 50/64] fix: saving a reordered slice of a solution array wrote
 misaligned data

---
 src/base/SolutionArray.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 36ecc44..6ab836d 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -1145,7 +1145,7 @@ void SolutionArray::writeEntry(const string& fname, const string& name,
         throw CanteraError("SolutionArray::writeEntry",
             "Group name specifying root location must not be empty.");
     }
-    if (m_size < m_dataSize) {
+    if (isSliced(m_active, m_dataSize)) {
         throw NotImplementedError("SolutionArray::writeEntry",
             "Unable to save sliced data.");
     }
@@ -1222,7 +1222,7 @@ void SolutionArray::writeEntry(AnyMap& root, const string& name, const string& s
         throw CanteraError("SolutionArray::writeEntry",
             "Field name specifying root location must not be empty.");
     }
-    if (m_size < m_dataSize) {
+    if (isSliced(m_active, m_dataSize)) {
         throw NotImplementedError("SolutionArray::writeEntry",
             "Unable to save sliced data.");
     }
@@ -1329,7 +1329,7 @@ void SolutionArray::save(const string& fname, const string& name, const string&
                          const string& desc, bool overwrite, int compression,
                          const string& basis)
 {
-    if (m_size < m_dataSize) {
+    if (isSliced(m_active, m_dataSize)) {
         throw NotImplementedError("SolutionArray::save",
                                   "Unable to save sliced data.");
     }
-- 
2.43.0


From c12d50a3b5c46dd4e8dc0af759b1827b75d4aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:27 +0000
Subject: [PATCH 51/64] fix: resizing a slice that outlived its solution array
 was undefined or reordered data

---
 src/base/SolutionArray.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 6ab836d..fcb397a 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -90,6 +90,7 @@ SolutionArray::SolutionArray(const SolutionArray& other,
                 "SolutionArray::SolutionArray", "indices", loc, m_dataSize);
         }
     }
+    m_apiShape.assign(1, static_cast<long>(m_size));
     set<int> unique(selected.begin(), selected.end());
     if (unique.size() < selected.size()) {
         throw CanteraError("SolutionArray::SolutionArray", "Indices must be unique.");
@@ -223,6 +224,21 @@ void SolutionArray::setApiShape(const vector<long int>& shape)
 
 void SolutionArray::_resize(size_t size)
 {
+    if (isSliced(m_active, m_dataSize)) {
+        // remaining owner of shared data: only retain active locations
+        vector<double> data;
+        for (auto loc : m_active) {
+            data.insert(data.end(), m_data->begin() + loc * m_stride,
+                        m_data->begin() + (loc + 1) * m_stride);
+        }
+        for (auto& [key, extra] : *m_extra) {
+            AnyValue active = getComponent(key);
+            extra = active;
+        }
+        *m_data = std::move(data);
+    }
+    m_shared = false;
+    m_loc = npos;
     m_size = size;
     m_dataSize = size;
     m_data->resize(m_dataSize * m_stride, 0.);
-- 
2.43.0


From 50a915029f8910faad34fee6c23ca66e797e1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:27 +0000
Subject: [PATCH 52/64] fix: restoring a solution array kept the names of extra
 components that were removed

---
 src/base/SolutionArray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index fcb397a..6cd8e0a 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -1706,6 +1706,7 @@ void SolutionArray::readEntry(const string& fname, const string& name,
             "Group name specifying data entry is empty.");
     }
     m_extra->clear();
+    m_order->clear();
     auto [size, names] = file.contents(path);
     m_meta = file.readAttributes(path, true);
     if (m_meta.hasKey("size")) {
@@ -1890,6 +1891,7 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
         resize(static_cast<int>(size));
     }
     m_extra->clear();
+    m_order->clear();
 
     // restore data
     set<string> exclude = {"size", "api-shape", "points", "X", "Y"};
-- 
2.43.0


From 8033d293a938e9a677b592034705c621a384e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:04 +0000
Subject: [PATCH 53/64] fix: saving a solution array with an uninitialized
 component destroyed the existing YAML file

---
 src/base/SolutionArray.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 6cd8e0a..187c561 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -1269,7 +1269,9 @@ void SolutionArray::writeEntry(AnyMap& root, const string& name, const string& s
     }
 
     for (auto& [_, key] : *m_order) {
-        data[key] = m_extra->at(key);
+        if (!m_extra->at(key).is<void>()) {
+            data[key] = m_extra->at(key);
+        } // skip unintialized component
     }
 
     auto phase = m_sol->thermo();
@@ -1378,8 +1380,9 @@ void SolutionArray::save(const string& fname, const string& name, const string&
         writeEntry(data, name, sub, true);
 
         // Write the output file and remove the now-outdated cached file
+        string content = data.toYamlString();
         std::ofstream out(fname);
-        out << data.toYamlString();
+        out << content;
         AnyMap::clearCachedFile(fname);
         return;
     }
@@ -1943,6 +1946,9 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
                     back = true;
                 } else {
                     addExtra(name, back);
+                    if (!path.hasKey(name)) {
+                        continue; // unintialized component
+                    }
                 }
                 setComponent(name, path[name]);
                 exclude.insert(name);
-- 
2.43.0


From 5bf44ce42323985e4a8d27f98ed6d7ca85a2f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:23 +0000
Subject: [PATCH 54/64] fix: restoring a solution array from YAML lost extra
 components of single entries and mixed up metadata

---
 src/base/SolutionArray.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 187c561..b03792e 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -1264,7 +1264,7 @@ void SolutionArray::writeEntry(AnyMap& root, const string& name, const string& s
     }
     data.update(m_meta);
 
-    if (m_size > 1) {
+    if (m_size > 1 || m_order->size()) {
         data["components"] = componentNames();
     }
 
@@ -1897,7 +1897,8 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
     m_order->clear();
 
     // restore data
-    set<string> exclude = {"size", "api-shape", "points", "X", "Y"};
+    set<string> exclude = {"size", "api-shape", "points", "X", "Y",
+                           "basis", "components"};
     set<string> names = path.keys();
     size_t nState = m_sol->thermo()->stateSize();
     if (m_dataSize == 0) {
@@ -2001,7 +2002,24 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
         }
     }
 
+    if (m_dataSize < 2 && path.hasKey("components")) {
+        // extra components of empty arrays or single data points
+        bool back = false;
+        for (const auto& name : path["components"].asVector<string>()) {
+            if (hasComponent(name)) {
+                back = true;
+                continue;
+            }
+            addExtra(name, back);
+            if (m_dataSize && path.hasKey(name)) {
+                setComponent(name, path[name]);
+            }
+            exclude.insert(name);
+        }
+    }
+
     // add meta data
+    m_meta.clear();
     for (const auto& [name, value] : path) {
         if (!exclude.count(name)) {
             m_meta[name] = value;
-- 
2.43.0


From d98003e16955df7c91cec3d2a5b1f8133155e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:23 +0000
Subject: [PATCH 55/64] fix: solution arrays with a single state of a pure
 phase could not be restored from YAML

---
 src/base/SolutionArray.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index b03792e..28c2cd4 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -1279,6 +1279,9 @@ void SolutionArray::writeEntry(AnyMap& root, const string& name, const string& s
         setLoc(0);
         data["temperature"] = phase->temperature();
         data["pressure"] = phase->pressure();
+        if (phase->isPure() && phase->isCompressible()) {
+            data["density"] = phase->density();
+        }
         auto surf = std::dynamic_pointer_cast<SurfPhase>(phase);
         auto nSpecies = phase->nSpecies();
         vector<double> values(nSpecies);
@@ -1911,6 +1914,18 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
             double P = path[getName(names, "P")].asDouble();
             auto Y = path["mass-fractions"].asMap<double>();
             m_sol->thermo()->setState_TPY(T, P, Y);
+        } else if (mode == "TP") {
+            // pure phase
+            double T = path[getName(names, "T")].asDouble();
+            double P = path[getName(names, "P")].asDouble();
+            m_sol->thermo()->setState_TP(T, P);
+            exclude.insert("mass-fractions");
+        } else if (mode == "TD") {
+            // pure compressible phase
+            double T = path[getName(names, "T")].asDouble();
+            double D = path[getName(names, "D")].asDouble();
+            m_sol->thermo()->setState_TD(T, D);
+            exclude.insert({"pressure", "mass-fractions"});
         } else if (mode == "TPC") {
             auto surf = std::dynamic_pointer_cast<SurfPhase>(m_sol->thermo());
             double T = path[getName(names, "T")].asDouble();
-- 
2.43.0


From a783f93923ea9a30759307b06d8b9c6e96ac8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:52 +0000
Subject: [PATCH 56/64] fix: restoring from a field without data at the default
 location silently emptied the solution array

---
 src/base/SolutionArray.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 28c2cd4..0c1579d 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -1876,6 +1876,11 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
     } else if (sub == "" && path.hasKey("data")) {
         // default data location
         path = locateField(root, name + "/data");
+    } else if (sub == "" && path.hasKey("generator") && !path.hasKey("size")
+               && !path.hasKey("api-shape") && !path.hasKey("points")) {
+        throw CanteraError("SolutionArray::readEntry",
+            "Field '{}' does not contain an entry in the default data location 'data'.",
+            name);
     }
 
     // set size and initialize
-- 
2.43.0


From 6c971c0d9ae54ce6cacaeb811472d1662e4263f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:14 +0000
Subject: [PATCH 57/64] fix: replacing the table of a pressure-dependent rate
 in use kept indices of the earlier table

---
 src/kinetics/ChebyshevRate.cpp | 2 ++
 src/kinetics/PlogRate.cpp      | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/kinetics/ChebyshevRate.cpp b/src/kinetics/ChebyshevRate.cpp
index 3fcd72c..c5d0e05 100644
--- a/src/kinetics/ChebyshevRate.cpp
+++ b/src/kinetics/ChebyshevRate.cpp
@@ -109,6 +109,7 @@ void ChebyshevRate::setLimits(double Tmin, double Tmax, double Pmin, double Pmax
     Tmax_ = Tmax;
     Pmin_ = Pmin;
     Pmax_ = Pmax;
+    m_log10P = NAN; // reduced pressures need to be evaluated again
 }
 
 void ChebyshevRate::setData(const Array2D& coeffs)
@@ -121,6 +122,7 @@ void ChebyshevRate::setData(const Array2D& coeffs)
         m_coeffs = Array2D(1, 1, NAN);
     }
     dotProd_.resize(m_coeffs.nRows());
+    m_log10P = NAN;
 }
 
 void ChebyshevRate::getParameters(AnyMap& rateNode) const
diff --git a/src/kinetics/PlogRate.cpp b/src/kinetics/PlogRate.cpp
index d8cd0d9..a476256 100644
--- a/src/kinetics/PlogRate.cpp
+++ b/src/kinetics/PlogRate.cpp
@@ -96,6 +96,10 @@ void PlogRate::setRates(const std::multimap<double, ArrheniusRate>& rates)
     pressures_.clear();
     m_valid = !rates.empty();
     rates_.reserve(rates.size());
+    // Indices found for an earlier set of rates are no longer valid
+    logP_ = -1000;
+    logP1_ = 1000;
+    logP2_ = -1000;
     // Insert intermediate pressures
     for (const auto& [pressure, rate] : rates) {
         double logp = std::log(pressure);
-- 
2.43.0


From a5c34f606a5f21cee6943ebbea5d7c5711914dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:43 +0000
Subject: [PATCH 58/64] fix: mole fractions set for a phase of a mixture were
 stored unnormalised

---
 src/equil/MultiPhase.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index bb980b5..fb3bca4 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -351,9 +351,7 @@ void MultiPhase::setPhaseMoleFractions(const size_t n, const double* const x)
     ThermoPhase* p = m_phase[n];
     p->setState_TPX(m_temp, m_press, x);
     size_t istart = m_spstart[n];
-    for (size_t k = 0; k < p->nSpecies(); k++) {
-        m_moleFractions[istart+k] = x[k];
-    }
+    p->getMoleFractions(&m_moleFractions[istart]);
 }
 
 void MultiPhase::setMolesByName(const Composition& xMap)
-- 
2.43.0


From 0a239179027e106040728242c35b008ccbca735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:43 +0000
Subject: [PATCH 59/64] fix: volume of a mixture was evaluated at a stale state
 of its phases

---
 src/equil/MultiPhase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index fb3bca4..3cf2626 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -475,6 +475,7 @@ void MultiPhase::calcElemAbundances() const
 double MultiPhase::volume() const
 {
     double sum = 0;
+    updatePhases();
     for (size_t i = 0; i < nPhases(); i++) {
         double vol = 1.0/m_phase[i]->molarDensity();
         sum += m_moles[i] * vol;
-- 
2.43.0


From e2266e8f4f2cdcdf8a37fb2e3b2cacd27f390c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:43 +0000
Subject: [PATCH 60/64] fix: failed equilibration of a mixture not yet
 initialised restored an empty composition

---
 src/equil/MultiPhase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index 3cf2626..caae676 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -647,6 +647,9 @@ void MultiPhase::equilibrate(const string& XY, const string& solver,
                              double rtol, int max_steps, int max_iter,
                              int estimate_equil, int log_level)
 {
+    if (!m_init) {
+        init();
+    }
     // Save the initial state so that it can be restored in case one of the
     // solvers fails
     vector<double> initial_moleFractions = m_moleFractions;
-- 
2.43.0


From bf914ad952be59c5974d2b88764a3d4b075ad0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:21 +0000
Subject: [PATCH 61/64] fix: Gibbs solver ignored reactions when element
 constraints are linearly dependent

---
 src/equil/MultiPhaseEquil.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/equil/MultiPhaseEquil.cpp b/src/equil/MultiPhaseEquil.cpp
index 0cdf7a2..e6a2628 100644
--- a/src/equil/MultiPhaseEquil.cpp
+++ b/src/equil/MultiPhaseEquil.cpp
@@ -92,6 +92,41 @@ MultiPhaseEquil::MultiPhaseEquil(MultiPhase* mix, bool start, int loglevel) : m_
         }
     }
 
+    // Element constraints that are linear combinations of other ones for the included
+    // species are redundant. Keep a linearly independent set only, since otherwise not
+    // all of the reactions between the included species would be considered.
+    vector<size_t> independent, pivots;
+    vector<vector<double>> basis;
+    for (size_t m : m_element) {
+        vector<double> row(m_nsp);
+        for (size_t k = 0; k < m_nsp; k++) {
+            row[k] = m_mix->nAtoms(m_species[k], m);
+        }
+        for (size_t i = 0; i < basis.size(); i++) {
+            double fctr = row[pivots[i]];
+            for (size_t k = 0; k < m_nsp; k++) {
+                row[k] -= fctr * basis[i][k];
+            }
+        }
+        size_t pivot = 0;
+        for (size_t k = 1; k < m_nsp; k++) {
+            if (fabs(row[k]) > fabs(row[pivot])) {
+                pivot = k;
+            }
+        }
+        if (m_nsp && fabs(row[pivot]) > 1e-10) {
+            double fctr = 1.0 / row[pivot];
+            for (double& x : row) {
+                x *= fctr;
+            }
+            independent.push_back(m);
+            pivots.push_back(pivot);
+            basis.push_back(row);
+        }
+    }
+    m_element = independent;
+    m_nel = m_element.size();
+
     // some work arrays for internal use
     m_work.resize(m_nsp);
     m_work2.resize(m_nsp);
-- 
2.43.0


From 020bdf4c72c9b7d142e3633a38dac6d081fa0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:21 +0000
Subject: [PATCH 62/64] fix: Gibbs solver reported convergence at a composition
 that had lost elements

---
 src/equil/MultiPhaseEquil.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/equil/MultiPhaseEquil.cpp b/src/equil/MultiPhaseEquil.cpp
index e6a2628..87137f4 100644
--- a/src/equil/MultiPhaseEquil.cpp
+++ b/src/equil/MultiPhaseEquil.cpp
@@ -191,6 +191,7 @@ double MultiPhaseEquil::equilibrate(int XY, double err, int maxsteps, int loglev
 {
     int i;
     m_iter = 0;
+    vector<double> start = m_moles;
     for (i = 0; i < maxsteps; i++) {
         stepComposition(loglevel-1);
         if (error() < err) {
@@ -202,6 +203,21 @@ double MultiPhaseEquil::equilibrate(int XY, double err, int maxsteps, int loglev
                            "no convergence in {} iterations. Error = {}",
                            maxsteps, error());
     }
+    // The steps of minor species do not conserve elements exactly, which is only
+    // acceptable as long as these species remain minor.
+    for (size_t m : m_element) {
+        double delta = 0.0, total = 0.0;
+        for (size_t k = 0; k < m_nsp; k++) {
+            double n = m_mix->nAtoms(m_species[k], m);
+            delta += n * (m_moles[k] - start[k]);
+            total += fabs(n * start[k]);
+        }
+        if (fabs(delta) > 1e-6 * total) {
+            throw CanteraError("MultiPhaseEquil::equilibrate",
+                               "element {} is not conserved. Change = {}",
+                               m_mix->elementName(m), delta);
+        }
+    }
     finish();
     return error();
 }
-- 
2.43.0


From 0881b0bb388830782ea8a90f93b97b071cf81b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:21 +0000
Subject: [PATCH 63/64] fix: failed inner step of an equilibration at fixed
 enthalpy or entropy left a composition that does not conserve elements

---
 src/equil/MultiPhase.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index caae676..dacac03 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -491,6 +491,7 @@ double MultiPhase::equilibrate_MultiPhaseEquil(int XY, double err, int maxsteps,
     if (!m_init) {
         init();
     }
+    vector<double> initialMoles(nSpecies());
 
     if (XY == TP) {
         // create an equilibrium manager
@@ -504,6 +505,7 @@ double MultiPhase::equilibrate_MultiPhaseEquil(int XY, double err, int maxsteps,
         for (int n = 0; n < maxiter; n++) {
             // if 'strt' is false, the current composition will be used as
             // the starting estimate; otherwise it will be estimated
+            getMoles(initialMoles.data());
             MultiPhaseEquil e(this, strt);
             // start with a loose error tolerance, but tighten it as we get
             // close to the final temperature
@@ -559,6 +561,9 @@ double MultiPhase::equilibrate_MultiPhaseEquil(int XY, double err, int maxsteps,
                 }
 
             } catch (CanteraError&) {
+                // the composition left behind by the failed attempt does not
+                // necessarily conserve elements
+                setMoles(initialMoles.data());
                 if (!strt) {
                     strt = true;
                 } else {
@@ -577,6 +582,7 @@ double MultiPhase::equilibrate_MultiPhaseEquil(int XY, double err, int maxsteps,
         double Tlow = 1.0; // lower bound on T
         double Thigh = 1.0e6; // upper bound on T
         for (int n = 0; n < maxiter; n++) {
+            getMoles(initialMoles.data());
             MultiPhaseEquil e(this, strt);
 
             try {
@@ -606,6 +612,9 @@ double MultiPhase::equilibrate_MultiPhaseEquil(int XY, double err, int maxsteps,
                     strt = false;
                 }
             } catch (CanteraError&) {
+                // the composition left behind by the failed attempt does not
+                // necessarily conserve elements
+                setMoles(initialMoles.data());
                 if (!strt) {
                     strt = true;
                 } else {
-- 
2.43.0


From 494f9aaa3d87e89c6cf5af395d9c3a6921db4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:21 +0000
Subject: [PATCH 64/64] fix: equilibration at fixed volume that did not
 converge was reported as success

---
 src/equil/MultiPhase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index dacac03..50ea62c 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -645,11 +645,12 @@ double MultiPhase::equilibrate_MultiPhaseEquil(int XY, double err, int maxsteps,
             double dVdP = (volume() - vnow)/(0.01*pnow);
             setPressure(pnow + 0.5*(v0 - vnow)/dVdP);
         }
+        throw CanteraError("MultiPhase::equilibrate_MultiPhaseEquil",
+                           "No convergence for P");
     } else {
         throw CanteraError("MultiPhase::equilibrate_MultiPhaseEquil",
                            "unknown option");
     }
-    return -1.0;
 }
 
 void MultiPhase::equilibrate(const string& XY, const string& solver,
-- 
2.43.0


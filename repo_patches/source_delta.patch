From 58800aa27e12af4e06c0e4b2e7c58ba1df81f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 01/12] fix: match repeated factors one by one when merging
 equivalent products

---
 src/ami_base_optimize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index f990fe9..d5ab493 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -203,7 +203,7 @@ bool AmiBase::pair_v_equiv(ref_v_t &r1, ref_v_t &r2, int &r1sign, int &r2sign) {
     if ( (r1[i].first == r2[j].first) && v2[j]==1){
       found=true;
       v2[j]=0;
-      continue; //
+      break; // use up only one factor of r2 for each factor of r1
       
     }
     
-- 
2.43.0


From 99a787b32ccdaa1b94d040f6ccbf76a89af2660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 02/12] fix: keep the species of a Green's function when a pole
 is inserted

---
 src/ami_base_construct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 2a77cbb..c15bc74 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -129,6 +129,7 @@ AmiBase::g_prod_t AmiBase::simple_residue(AmiBase::g_prod_t G_in,
 AmiBase::g_struct AmiBase::update_G_pole(AmiBase::g_struct g_in,
                                          AmiBase::pole_struct pole) {
   AmiBase::g_struct g_new;
+  g_new.species_ = g_in.species_;
 
   for (int i = 0; i < g_in.alpha_.size(); i++) {
     if (i != pole.index_) {
-- 
2.43.0


From 154050e3e5890312b73f6673cb97148e0808f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 03/12] fix: factorial overflowed int for poles of multiplicity
 14 and above

---
 src/ami_base.hpp           | 2 +-
 src/ami_base_construct.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index e1e9100..550c5f6 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -68,7 +68,7 @@ public:
 
   /// Simple factorial function. It is rarely called except for multipole
   /// problems, and typically for only small arguments.
-  int factorial(int n);
+  double factorial(int n);
 
   // AmiVars
 
diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index c15bc74..0af445e 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -537,7 +537,7 @@ double AmiBase::get_starting_sign(AmiBase::g_prod_t G_in,
     result = result * (double)G_in[pole.which_g_[i]].alpha_[pole.index_];
   }
 
-  result = result / (double)factorial(pole.multiplicity_ - 1);
+  result = result / factorial(pole.multiplicity_ - 1);
 
   return result;
 }
@@ -568,6 +568,6 @@ AmiBase::g_prod_t AmiBase::reduce_gprod(AmiBase::g_prod_t G_in,
   return reduced;
 }
 
-int AmiBase::factorial(int n) {
+double AmiBase::factorial(int n) {
   return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
 }
\ No newline at end of file
-- 
2.43.0


From 206dd454e6cc3db68b9ffedd05529038710010e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 04/12] fix: apply the prefactor once in the factorized
 evaluations

---
 src/ami_base_evaluate.cpp       | 10 ++++++----
 src/ami_base_terms_evaluate.cpp | 10 +++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 290ae54..fc2dfb6 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -88,6 +88,9 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
   
 
+  // the overall prefactor enters once per term, not once per G
+  external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // Context: we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -96,7 +99,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -105,7 +108,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -114,8 +117,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for
-                                  // each g. we then add that back later
+    unique_vals.push_back(gprod);
   }
 
 
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index d31d3ba..097e3c9 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -35,6 +35,10 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
   // std::cout<<"External prefactor is "<<external.prefactor<<std::endl;
 
+  // the overall prefactor enters once per term, not once per G
+  ami_vars unit_external = external;
+  unit_external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -43,7 +47,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, unit_external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -52,7 +56,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, unit_external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -61,7 +65,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for each g. we then add that back later
+    unique_vals.push_back(gprod);
   }
 
   // now evaluate each term in list
-- 
2.43.0


From 836746cc3a501d2faac14c5d2b84161a47299f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 05/12] fix: derivative_opt of an expression without external
 frequency is zero

---
 src/ami_base_optimize.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index d5ab493..0c211da 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -52,6 +52,16 @@ void AmiBase::derivative_opt(g_prod_t &unique_g, R_ref_t &Rref,
     }
   }
 
+  // if nothing depends on the external frequency the derivative is zero. An
+  // empty list would make evaluate fall back to the underived expression
+  if (nRref.size() == 0 && Rref.size() != 0) {
+    nRref.push_back(Rref[0]);
+    nEval_list.push_back(Eval_list[0]);
+    for (int m = 0; m < nEval_list[0].size(); m++) {
+      nEval_list[0][m].second = 0;
+    }
+  }
+
   Rref = nRref;
   Eval_list = nEval_list;
 }
-- 
2.43.0


From 8b7c4e26300a0ad69bb135e38d148379f1930649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 06/12] fix: evaluations flag overflow when a term is not
 finite or exceeds the cutoff

---
 src/ami_base_evaluate.cpp       | 15 +++++++++------
 src/ami_base_terms_evaluate.cpp | 22 ++++++++++++++++++----
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index fc2dfb6..eafe051 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -166,8 +166,9 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     term = ksum_mp * this_gprod * prefactor;
 	
 	
-    if ((boost::multiprecision::abs(std::real(term)) > precision_cutoff) ||
-        (boost::multiprecision::abs(std::imag(term)) > precision_cutoff)) {
+    // negated so that a nan counts as an overflow
+    if (!(boost::multiprecision::abs(std::real(term)) <= precision_cutoff) ||
+        !(boost::multiprecision::abs(std::imag(term)) <= precision_cutoff)) {
       overflow_detected = true;
     }
 #else
@@ -184,8 +185,9 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     term = ksum * this_gprod *
            prefactor; // add back the overall prefactor for this term
 
-    if ((std::abs(std::real(term)) > precision_cutoff) ||
-        (std::abs(std::imag(term)) > precision_cutoff)) {
+    // negated so that a nan counts as an overflow
+    if (!(std::abs(std::real(term)) <= precision_cutoff) ||
+        !(std::abs(std::imag(term)) <= precision_cutoff)) {
       overflow_detected = true;
     }
 
@@ -305,8 +307,9 @@ std::complex<double> AmiBase::star(ami_parms &parms, SorF_t K, Ri_t R,
         overflow_detected = true;
       }
 
-      if ((std::abs(std::real(term)) > precision_cutoff) ||
-          (std::abs(std::imag(term)) > precision_cutoff)) {
+      // negated so that a nan counts as an overflow
+      if (!(std::abs(std::real(term)) <= precision_cutoff) ||
+          !(std::abs(std::imag(term)) <= precision_cutoff)) {
         overflow_detected = true;
       } else {
         // edit -> G can be exactly equal to 1 without indicating an
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index 097e3c9..bae682a 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -116,8 +116,9 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     term = ksum_mp * this_gprod * prefactor;
 	
 	
-    if ((boost::multiprecision::abs(std::real(term)) > precision_cutoff) ||
-        (boost::multiprecision::abs(std::imag(term)) > precision_cutoff)) {
+    // negated so that a nan counts as an overflow
+    if (!(boost::multiprecision::abs(std::real(term)) <= precision_cutoff) ||
+        !(boost::multiprecision::abs(std::imag(term)) <= precision_cutoff)) {
       overflow_detected = true;
     }
 #else
@@ -134,8 +135,9 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     term = ksum * this_gprod *
            prefactor; // add back the overall prefactor for this term
 
-    if ((std::abs(std::real(term)) > precision_cutoff) ||
-        (std::abs(std::imag(term)) > precision_cutoff)) {
+    // negated so that a nan counts as an overflow
+    if (!(std::abs(std::real(term)) <= precision_cutoff) ||
+        !(std::abs(std::imag(term)) <= precision_cutoff)) {
       overflow_detected = true;
     }
 
@@ -234,6 +236,12 @@ std::complex<double> AmiBase::evaluate_term(ami_parms &parms, term &ami_term,
 
   output = ami_term.sign * gprod * fprod;
 
+  // negated so that a nan counts as an overflow
+  if (!(std::abs(std::real(output)) <= precision_cutoff) ||
+      !(std::abs(std::imag(output)) <= precision_cutoff)) {
+    overflow_detected = true;
+  }
+
   if (verbose) {
     std::cout << "Term gave " << ami_term.sign * fprod << " " << gprod << " "
               << output << std::endl;
@@ -264,6 +272,12 @@ std::complex<boost::multiprecision::float128> AmiBase::evaluate_term_mp(ami_parm
   std::complex<boost::multiprecision::float128> sign=dsign;
   output = sign * gprod * fprod;
 
+  // negated so that a nan counts as an overflow
+  if (!(boost::multiprecision::abs(std::real(output)) <= precision_cutoff) ||
+      !(boost::multiprecision::abs(std::imag(output)) <= precision_cutoff)) {
+    overflow_detected = true;
+  }
+
   if (verbose) {
     std::cout << "MP Term gave " << sign * fprod << " " << gprod << " "
               << output << std::endl;
-- 
2.43.0


From a55305237916dc715037629fd973e4787972b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 07/12] fix: find_poles read the first factor of an empty
 product

---
 src/ami_base_construct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 0af445e..abe0105 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -195,6 +195,11 @@ AmiBase::pole_array_t AmiBase::find_poles(int index, AmiBase::g_prod_t &R) {
   pole_array_t pole_array;
   pole_struct pole;
 
+  // an empty product has no poles (and no first element to take sizes from)
+  if (R.size() == 0) {
+    return pole_array;
+  }
+
   pole.alpha_.reserve(R[0].alpha_.size());
   pole.eps_.reserve(R[0].eps_.size());
 
-- 
2.43.0


From c5d81ac9f7add78072687830c7a355ccb24a87c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 08/12] fix: on-the-fly evaluation missed equal energies of
 opposite orientation

---
 src/ami_base_evaluate.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index eafe051..ba7d525 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -817,8 +817,19 @@ for (int ord=0; ord<R_array.size(); ord++){
         
         if(eps_m==eps_n){ // || std::abs(eps_m-eps_n)<1e-15){
         
-        std::vector<int> this_pair{ord,num,m,n};
+        std::vector<int> this_pair{ord,num,m,n,1};
         equal_pairs.push_back(this_pair);
+        }else if(eps_m==-eps_n){
+        // the same energy in two G's that run in opposite directions
+        bool opposite=true;
+        for (int a = 0; a < R_array[ord][num][m].eps_.size(); a++) {
+          if(R_array[ord][num][m].eps_[a]!=-R_array[ord][num][n].eps_[a]){opposite=false;}
+        }
+
+        if(!opposite){
+        std::vector<int> this_pair{ord,num,m,n,-1};
+        equal_pairs.push_back(this_pair);
+        }
         }
         
       }
@@ -1049,6 +1060,9 @@ int m=pairs[i][2];
 int n=pairs[i][3];
 
 R_otf[a][b][m].eps_=R_otf[a][b][n].eps_;  
+if(pairs[i][4]<0){
+  for(int e=0; e<R_otf[a][b][m].eps_.size(); e++){ R_otf[a][b][m].eps_[e]*=-1; }
+}
   
 }
 }
-- 
2.43.0


From 5600cc0d0a0112fcea03e2ac5d45536a2ccb6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 09/12] fix: flag overflow also when there is nothing to
 integrate

---
 src/ami_base_evaluate.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index ba7d525..cd419b6 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -21,6 +21,12 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
 
     gprod = eval_gprod(parms, R_array[0][0], external);
 
+    // negated so that a nan counts as an overflow
+    if (!(std::abs(std::real(gprod)) <= precision_cutoff) ||
+        !(std::abs(std::imag(gprod)) <= precision_cutoff)) {
+      overflow_detected = true;
+    }
+
     return gprod;
   }
 
@@ -236,6 +242,12 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
 
     gprod = eval_gprod(parms, R_array[0][0], external);
 
+    // negated so that a nan counts as an overflow
+    if (!(std::abs(std::real(gprod)) <= precision_cutoff) ||
+        !(std::abs(std::imag(gprod)) <= precision_cutoff)) {
+      overflow_detected = true;
+    }
+
     return gprod;
   }
 
-- 
2.43.0


From 2043e7b33f640cfc482a15139be606e91b097d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 10/12] fix: on-the-fly evaluation compared levels that were
 never set

---
 src/ami_base_evaluate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index cd419b6..0a27d9c 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -996,8 +996,8 @@ std::complex<double> calc_result=evaluate(parms,R_array, P_array, S_array,  exte
   return calc_result;
 }
 
-int triggers_start;//=triggers[0][0];
-int pairs_start;//=pairs[0][0];
+int triggers_start=-1;//=triggers[0][0];
+int pairs_start=-1;//=pairs[0][0];
 
 int problem_start;
 
-- 
2.43.0


From 53998d4a0577a6607b6547fd58589d74d97ca3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 11/12] fix: frequency shift of a spectral pole kept only its
 last entry

---
 src/ami_base_evaluate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 0a27d9c..b20299b 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -436,7 +436,7 @@ std::complex<double> AmiBase::fermi_pole(ami_parms &parms, pole_struct pole,
   std::complex<double> freq_shift(0, 0);
   if (pole.x_alpha_.size() != 0) {
     for (int i = 0; i < pole.x_alpha_.size(); i++) {
-      freq_shift = external.frequency_[i] * (double)pole.x_alpha_[i];
+      freq_shift += external.frequency_[i] * (double)pole.x_alpha_[i];
     }
   }
 
-- 
2.43.0


From 6f96ceef04ca07edeb8d61089ef0ea9f48e92f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 12/12] fix: a product equal to one or without real part is no
 overflow in any route

---
 src/ami_base_evaluate.cpp       | 3 ++-
 src/ami_base_terms_evaluate.cpp | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index b20299b..ddc0429 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -324,10 +324,11 @@ std::complex<double> AmiBase::star(ami_parms &parms, SorF_t K, Ri_t R,
           !(std::abs(std::imag(term)) <= precision_cutoff)) {
         overflow_detected = true;
       } else {
-        // edit -> G can be exactly equal to 1 without indicating an
+        // edit -> G can be exactly equal to 0 or 1 without indicating an
         // overflow
         if ((std::floor(std::abs(std::real(gprod))) ==
              std::abs(std::real(gprod))) &&
+            std::abs(std::real(gprod)) != 0 &&
             std::abs(std::real(gprod)) != 1) {
          
           overflow_detected = true;
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index bae682a..18bae38 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -222,9 +222,9 @@ std::complex<double> AmiBase::evaluate_term(ami_parms &parms, term &ami_term,
 
   gprod = eval_gprod(parms, ami_term.g_list, external);
 
-  // check for overflow
+  // check for overflow. G can be exactly equal to 0 or 1 without indicating one
   if ((std::floor(std::abs(std::real(gprod))) == std::abs(std::real(gprod))) &&
-      std::abs(std::real(gprod)) != 0) {
+      std::abs(std::real(gprod)) != 0 && std::abs(std::real(gprod)) != 1) {
     overflow_detected = true;
   }
 
@@ -259,7 +259,8 @@ std::complex<boost::multiprecision::float128> AmiBase::evaluate_term_mp(ami_parm
 
   // check for overflow
   if ((boost::multiprecision::floor(boost::multiprecision::abs(std::real(gprod))) == boost::multiprecision::abs(std::real(gprod))) &&
-      boost::multiprecision::abs(std::real(gprod)) != 0) {
+      boost::multiprecision::abs(std::real(gprod)) != 0 &&
+      boost::multiprecision::abs(std::real(gprod)) != 1) {
     overflow_detected = true;
   }
 
-- 
2.43.0


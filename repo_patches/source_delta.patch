From 950e109ac80e8667e51a68d8d266e8345c8d85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:37 +0000
Subject: [PATCH 01/40] fix: HIPBasis::drop_last(false,false) must keep all
 functions

With neither the value nor the derivative condition requested at the right
end, the value function was dropped anyway, unlike drop_first and the HIP2 /
HIP3 bases.
---
 libhelfem/include/HIPBasis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/include/HIPBasis.h b/libhelfem/include/HIPBasis.h
index 8c34c75..d387894 100644
--- a/libhelfem/include/HIPBasis.h
+++ b/libhelfem/include/HIPBasis.h
@@ -71,7 +71,7 @@ class HIPBasisT : public LIPBasisT<T> {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 2).eval();
     } else if (deriv) {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 1).eval();
-    } else {
+    } else if (func) {
       IVec new_enabled(this->enabled.size() - 1);
       new_enabled.segment(0, this->enabled.size() - 2)
           = this->enabled.segment(0, this->enabled.size() - 2);
-- 
2.43.0


From ab792720eed17166137d4b474a179adaac15c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:23 +0000
Subject: [PATCH 02/40] fix: finite-nucleus grid must end at the requested rmax

The nuclear grid is laid down twice before the electronic one, so the last
boundary came out at rmax+rnuc.
---
 src/atomic/basis.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atomic/basis.cpp b/src/atomic/basis.cpp
index 31dece3..418beb2 100644
--- a/src/atomic/basis.cpp
+++ b/src/atomic/basis.cpp
@@ -58,8 +58,9 @@ namespace helfem {
         if(num_el_nuc) {
           // Grid for the finite nucleus
           helfem::Vector bnuc(utils::get_grid(rnuc,num_el_nuc,igrid_nuc,zexp_nuc));
-          // and the one for the electrons
-          helfem::Vector belec(utils::get_grid(rmax-rnuc,num_el,igrid,zexp));
+          // and the one for the electrons; the nuclear grid is used twice
+          // below, so the electronic grid starts at 2*rnuc
+          helfem::Vector belec(utils::get_grid(rmax-2*rnuc,num_el,igrid,zexp));
 
           helfem::Vector bnucel(concatenate_grid(bnuc,bnuc));
           return concatenate_grid(bnucel,belec);
-- 
2.43.0


From b849586b5854197932639de88f7d95347daba7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:20 +0000
Subject: [PATCH 03/40] fix: cross-basis radial integrals are finite for
 weights that diverge at the origin

---
 libhelfem/src/RadialBasis.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 1e1a020..2d844e5 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -404,8 +404,13 @@ namespace helfem {
 
                   helfem::Vec<T> wtot = wproj * intlen;
                   if (weight)
-                    for (Eigen::Index i = 0; i < r.size(); ++i)
-                      wtot(i) *= weight(r(i));
+                    for (Eigen::Index i = 0; i < r.size(); ++i) {
+                      // As in FiniteElementBasisT::matrix_element: a weight
+                      // that diverges at an element end (-Z/r at the origin)
+                      // meets vanishing basis functions there.
+                      const T fv = weight(r(i));
+                      wtot(i) = std::isfinite(fv) ? (wtot(i) * fv) : T(0);
+                    }
 
                   const helfem::Mat<T> ifunc = eval_B_at<T>(fem,    xi, iel, bra);
                   const helfem::Mat<T> jfunc = eval_B_at<T>(rh.fem, xj, jel, ket);
-- 
2.43.0


From cc33f53fbc4c44694fb24d26e6090a5a95f610f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:20 +0000
Subject: [PATCH 04/40] fix: barrier confinement samples the step only on its
 own side

---
 libhelfem/src/RadialBasis.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 2d844e5..3f6b312 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -538,12 +538,13 @@ namespace helfem {
 
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::barrier_confinement(size_t iel, T V, T shift_pot) const {
-        // Step at r = shift_pot -> breakpoint.
-        return matrix_element(iel, BasisKind::B0, BasisKind::B0,
-                              [V, shift_pot](T r) {
-                                return (r < shift_pot) ? T(0) : V;
-                              },
-                              std::vector<T>{shift_pot}, -1);
+        // Step at r = shift_pot: integrate only the part of the element
+        // beyond it, so that no quadrature node sits on the wrong side.
+        const T x_left = (shift_pot - fem.element_midpoint(iel)) / fem.scaling_factor(iel);
+        if (shift_pot >= fem.element_end(iel))
+          return helfem::Mat<T>::Zero(Nprim(iel), Nprim(iel));
+        return V * matrix_element(iel, BasisKind::B0, BasisKind::B0, std::function<T(T)>(),
+                                  std::max(x_left, T(-1)), T(1));
       }
 
       template <typename T>
-- 
2.43.0


From 778fd4c07fe76cde6719f80f380b97a04d06c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:20 +0000
Subject: [PATCH 05/40] fix: shifted polynomial confinement is (r-shift)^N, not
 (r-shift)^(N+2)/r^2

---
 libhelfem/src/RadialBasis.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 3f6b312..7a92b6d 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -507,9 +507,12 @@ namespace helfem {
         // element there so each smooth sub-panel converges by order-refinement.
         return matrix_element(iel, BasisKind::R0, BasisKind::R0,
                               [N, shift_pot](T r) {
-                                return (r < shift_pot)
-                                    ? T(0)
-                                    : std::pow(r - shift_pot, N + 2);
+                                if (r < shift_pot)
+                                  return T(0);
+                                // the basis functions carry 1/r each
+                                return (shift_pot == T(0))
+                                    ? std::pow(r, N + 2)
+                                    : r * r * std::pow(r - shift_pot, N);
                               },
                               std::vector<T>{shift_pot}, -1);
       }
-- 
2.43.0


From 2ab9100aec93649302c420a39bc0d4030c94042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:48 +0000
Subject: [PATCH 06/40] fix: modified spherical Bessel functions carry the
 precision of _Float128

---
 libhelfem/include/math.h | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/libhelfem/include/math.h b/libhelfem/include/math.h
index 01d48e7..8db32c1 100644
--- a/libhelfem/include/math.h
+++ b/libhelfem/include/math.h
@@ -23,6 +23,12 @@
 namespace helfem {
 namespace math {
 
+/// True for scalar types that carry more digits than the special functions
+/// of the standard library can deliver.
+template <typename T>
+inline constexpr bool wider_than_long_double =
+    std::numeric_limits<T>::digits > std::numeric_limits<long double>::digits;
+
 /// Inverse cosh. x is mathematically >= 1 but is clamped to 1 because the
 /// caller may pass values that round to slightly below 1 (e.g. cosh(mu) for
 /// very small mu).
@@ -61,14 +67,14 @@ Vec<T> arsinh(const Vec<T> & x) {
 /// than the explicit series.
 ///
 /// For larger |x| we fall back to the C++17 std::cyl_bessel_i, which
-/// overloads on float/double/long double. For __float128 (or any other T
-/// without a std::cyl_bessel_i overload) a user-supplied specialisation
-/// is required.
+/// carries at most long double precision. For wider T (_Float128) the
+/// Taylor series is used throughout: all its terms are positive, so it is
+/// accurate to eps(T) at any |x|.
 template <typename T>
 T bessel_il(T r, int L) {
   const T absr = std::abs(r);
   T val;
-  if (absr < T(0.5)) {
+  if (absr < T(0.5) || wider_than_long_double<T>) {
     // (2L+1)!!
     T dfac = T(1);
     for (int j = 3; j <= 2*L + 1; j += 2) dfac *= T(j);
@@ -76,10 +82,11 @@ T bessel_il(T r, int L) {
     val = term;
     const T r2half = T(0.5) * absr * absr;
     const T tol    = std::numeric_limits<T>::epsilon() * T(0.01);
-    for (int k = 1; k < 256; ++k) {
+    for (int k = 1; k < 256 || wider_than_long_double<T>; ++k) {
       term *= r2half / (T(k) * T(2*L + 2*k + 1));
       val += term;
-      if (std::abs(term) <= tol * std::abs(val)) break;
+      // (negated so that a non-finite argument ends the loop, too)
+      if (!(std::abs(term) > tol * std::abs(val))) break;
     }
   } else {
     const T pi = std::acos(T(-1));
@@ -99,13 +106,25 @@ Vec<T> bessel_il(const Vec<T> & r, int L) {
 ///     k_L(r) = sqrt(2/(pi r)) * K_{L+1/2}(r).
 /// Singular at r=0.
 ///
-/// Uses C++17 std::cyl_bessel_k under the hood; same precision-portability
-/// caveat as bessel_il (user-supplied specialisation needed for T without
-/// a std::cyl_bessel_k overload).
+/// Uses C++17 std::cyl_bessel_k under the hood, which carries at most long
+/// double precision; for wider T the (stable) upward recurrence from the
+/// closed forms of k_0 and k_1 is used instead.
 template <typename T>
 T bessel_kl(T r, int L) {
+  if constexpr (wider_than_long_double<T>) {
+    T km = std::exp(-r) / r;
+    if (L == 0) return km;
+    T k = km * (T(1) + T(1) / r);
+    for (int l = 1; l < L; ++l) {
+      const T kp = km + T(2*l + 1) / r * k;
+      km = k;
+      k = kp;
+    }
+    return k;
+  } else {
   const T pi = std::acos(T(-1));
   return std::cyl_bessel_k(T(L) + T(0.5), r) * std::sqrt(T(2) / (pi * r));
+  }
 }
 
 template <typename T>
-- 
2.43.0


From 62a0a900fcc7abf4cba2b5ed950240d39229826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:34 +0000
Subject: [PATCH 07/40] fix: binomial coefficients of negative order in the
 short-range erfc expansion

---
 libhelfem/src/erfc_expn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/src/erfc_expn.cpp b/libhelfem/src/erfc_expn.cpp
index b938487..3ba23d1 100644
--- a/libhelfem/src/erfc_expn.cpp
+++ b/libhelfem/src/erfc_expn.cpp
@@ -79,7 +79,7 @@ namespace helfem {
 
         // Negative binomials
         if(n<0) {
-          return choose<T>(n+m-1,m)*std::pow(T(-1),m);
+          return choose<T>(m-n-1,m)*std::pow(T(-1),m);
         } else {
           // Multiplicative formula keeps the running value as a T
           // and avoids any factorial overflow for large n.
-- 
2.43.0


From 2ef44c1ddecfe995219cff898fd72e72a9339187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:57 +0000
Subject: [PATCH 08/40] fix: erfc expansion uses the Taylor polynomial where
 the general form cancels at high order

---
 libhelfem/src/erfc_expn.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libhelfem/src/erfc_expn.cpp b/libhelfem/src/erfc_expn.cpp
index 3ba23d1..86cbfbe 100644
--- a/libhelfem/src/erfc_expn.cpp
+++ b/libhelfem/src/erfc_expn.cpp
@@ -219,8 +219,11 @@ namespace helfem {
         if(Xi < xi)
           std::swap(Xi,xi);
 
-        // See text on top of page 8624 of Angyan et al
-        if(xi < T(0.4) || (Xi < T(0.5) && xi < T(2)*Xi)) {
+        // See text on top of page 8624 of Angyan et al. The general
+        // expansion loses digits to cancellation faster for higher n, so
+        // the range of the Taylor polynomial has to grow with n.
+        const T xishort = std::min(T(0.4) + T(0.2)*T(n), T(2.5));
+        if(xi < xishort || (Xi < T(0.5) && xi < T(2)*Xi)) {
           // Short-range Taylor polynomial
           return Phi_short<T>(n,Xi,xi);
         } else {
-- 
2.43.0


From f9668cd001198b2c0f90ab1ac0ac81a9fd099a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:07 +0000
Subject: [PATCH 09/40] fix: GSZ parameters are tabulated from Z=1, not Z=0

---
 src/general/gsz.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/general/gsz.cpp b/src/general/gsz.cpp
index a77c686..4d56f74 100644
--- a/src/general/gsz.cpp
+++ b/src/general/gsz.cpp
@@ -21,13 +21,14 @@ static const double d_Z_GSZ[]={1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0
 namespace helfem {
   namespace GSZ {
     void GSZ_parameters(int Z, double & d, double & H) {
-      if((size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
+      if(Z < 1 || (size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
 	std::ostringstream oss;
 	oss << "No GSZ parameters for Z = " << Z << "!\n";
 	throw std::logic_error(oss.str());
       }
 
-      d=d_Z_GSZ[Z];
+      // The table starts from hydrogen
+      d=d_Z_GSZ[Z-1];
       H=d*std::pow(Z-1,0.4);
     }
 
-- 
2.43.0


From 774f42ef1b55ace2f6551d5a82753ee96f14135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 10/40] fix: regularized nucleus rejects sizes whose
 normalization cannot be bracketed

---
 libhelfemqc/src/RegularizedNucleus.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhelfemqc/src/RegularizedNucleus.cpp b/libhelfemqc/src/RegularizedNucleus.cpp
index 9a0cee8..1763a3b 100644
--- a/libhelfemqc/src/RegularizedNucleus.cpp
+++ b/libhelfemqc/src/RegularizedNucleus.cpp
@@ -113,6 +113,8 @@ namespace helfem {
       const helfem::Vec<T> dnorm = (norm.col(1).array() - target).abs().matrix();
       Eigen::Index idx;
       dnorm.minCoeff(&idx);
+      if(idx == 0 || idx+1 == norm.rows())
+        throw std::logic_error("Could not bracket normalized wf!\n");
 
       T b_right=norm(idx+1,0);
       if(phi_normalization<T>(a,b_right,N) > target)
-- 
2.43.0


From 99ed6e5a906c9773ceff588f1f5a72f256b4f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:49 +0000
Subject: [PATCH 11/40] fix: theta derivative of atomic basis functions is
 regular at the poles

The m cot(theta) Y_l^m term was dropped at cos(theta)=+-1, but its limit is
nonzero for |m|=1. Use the ladder operator form, which holds everywhere.
---
 src/atomic/TwoDBasis.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/atomic/TwoDBasis.cpp b/src/atomic/TwoDBasis.cpp
index a601249..a57a784 100644
--- a/src/atomic/TwoDBasis.cpp
+++ b/src/atomic/TwoDBasis.cpp
@@ -1176,25 +1176,21 @@ namespace helfem {
           // and so is phi
           for(size_t i=0;i<(size_t) lval.size();i++)
             dphi.middleCols(i*frad.cols(),frad.cols())=(std::complex<double>(0.0,mval(i))*sph(i))*frad.cast<std::complex<double>>();
-          // sin^2(theta) = (1 - cth)(1 + cth) is algebraically identical to
-          // 1 - cth*cth but avoids the catastrophic cancellation when cth is
-          // close to +/- 1. The std::max(..., 0.0) is a paranoia floor for
-          // the case where round-off pushes the product slightly negative.
-          const double sinth = std::sqrt(std::max((1.0-cth)*(1.0+cth), 0.0));
-          // cot(theta) is singular at the poles; for cth = +/- 1 the m*cot*Y
-          // term is the m=0 case (contribution 0) or |m|>=1 with sph(i)=0 in
-          // the limit, so a defensive 0 is the right value here.
-          const double cotth = (sinth > 0.0) ? cth/sinth : 0.0;
-
-          // but theta is nastier
+          // but theta is nastier. Use the ladder operator form
+          //   dY_l^m/dtheta = 1/2 [ sqrt((l-m)(l+m+1)) e^{-i phi} Y_l^{m+1}
+          //                       - sqrt((l+m)(l-m+1)) e^{ i phi} Y_l^{m-1} ]
+          // which, unlike the form with m cot(theta) Y_l^m, is also valid at
+          // the poles, where the derivative is nonzero for |m|=1.
           for(size_t i=0;i<(size_t) lval.size();i++) {
             int l(lval(i));
             int m(mval(i));
 
             // Angular factor
-            std::complex<double> angfac(m*cotth*sph(i));
-            if(mval(i)<lval(i))
-              angfac+=sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(lval(i),mval(i)+1,cth,phi);
+            std::complex<double> angfac(0.0,0.0);
+            if(m<l)
+              angfac+=0.5*sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(l,m+1,cth,phi);
+            if(m>-l)
+              angfac-=0.5*sqrt((l+m)*(l-m+1))*std::exp(std::complex<double>(0,phi))*::spherical_harmonics(l,m-1,cth,phi);
 
             dth.middleCols(i*frad.cols(),frad.cols())=angfac*frad.cast<std::complex<double>>();
           }
-- 
2.43.0


From 69f17210ab99569477065357768447683ada54e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:02 +0000
Subject: [PATCH 12/40] fix: small smooth nuclei are resolved by the element
 quadrature

Gaussian and regularized nuclei much smaller than the element were missed by
the order refinement, which stabilised on the point nucleus value. Report the
saturation radius as a breakpoint.
---
 libhelfemqc/include/GaussianNucleus.h    | 6 ++++++
 libhelfemqc/include/RegularizedNucleus.h | 5 +++++
 libhelfemqc/src/GaussianNucleus.cpp      | 8 ++++++++
 libhelfemqc/src/RegularizedNucleus.cpp   | 8 ++++++++
 4 files changed, 27 insertions(+)

diff --git a/libhelfemqc/include/GaussianNucleus.h b/libhelfemqc/include/GaussianNucleus.h
index 7bef703..577ce05 100644
--- a/libhelfemqc/include/GaussianNucleus.h
+++ b/libhelfemqc/include/GaussianNucleus.h
@@ -36,6 +36,12 @@ namespace helfem {
       ~GaussianNucleusT();
       /// Potential
       T V(T r) const override;
+      /// The potential is smooth, but it crosses over to -Z/r within a
+      /// distance that can be far below the element size, in which case
+      /// order refinement over the whole element may stabilise without
+      /// ever sampling the nucleus. Split where erf(mu*r) is one to
+      /// machine precision.
+      std::vector<T> breakpoints(T a, T b) const override;
       /// Get mu
       T get_mu() const;
       /// Set mu
diff --git a/libhelfemqc/include/RegularizedNucleus.h b/libhelfemqc/include/RegularizedNucleus.h
index 940e3ba..031d1d3 100644
--- a/libhelfemqc/include/RegularizedNucleus.h
+++ b/libhelfemqc/include/RegularizedNucleus.h
@@ -35,6 +35,11 @@ namespace helfem {
       ~RegularizedNucleusT();
       /// Potential
       T V(T r) const override;
+      /// The potential is smooth, but like the Gaussian nucleus it crosses
+      /// over to -Z/r within a distance that can be far below the element
+      /// size. Split where the regularization has died out to machine
+      /// precision.
+      std::vector<T> breakpoints(T a, T b) const override;
       /// Get a
       T get_a() const;
       /// Get b
diff --git a/libhelfemqc/src/GaussianNucleus.cpp b/libhelfemqc/src/GaussianNucleus.cpp
index 8357826..65d736b 100644
--- a/libhelfemqc/src/GaussianNucleus.cpp
+++ b/libhelfemqc/src/GaussianNucleus.cpp
@@ -40,6 +40,14 @@ namespace helfem {
       }
     }
 
+    template <typename T>
+    std::vector<T> GaussianNucleusT<T>::breakpoints(T a, T b) const {
+      // erfc(x) < exp(-x^2)
+      const T Rsat = std::sqrt(-std::log(std::numeric_limits<T>::epsilon()))/mu;
+      if(Rsat > a && Rsat < b) return std::vector<T>{Rsat};
+      return std::vector<T>();
+    }
+
     template <typename T>
     T GaussianNucleusT<T>::get_mu() const {
       return mu;
diff --git a/libhelfemqc/src/RegularizedNucleus.cpp b/libhelfemqc/src/RegularizedNucleus.cpp
index 1763a3b..ad77848 100644
--- a/libhelfemqc/src/RegularizedNucleus.cpp
+++ b/libhelfemqc/src/RegularizedNucleus.cpp
@@ -217,6 +217,14 @@ namespace helfem {
       return std::pow(T(Z),2)*val;
     }
 
+    template <typename T>
+    std::vector<T> RegularizedNucleusT<T>::breakpoints(T left, T right) const {
+      // The regularization decays as exp(-(a Z r)^2)
+      const T Rsat = std::sqrt(-std::log(std::numeric_limits<T>::epsilon()))/(a*Z);
+      if(Rsat > left && Rsat < right) return std::vector<T>{Rsat};
+      return std::vector<T>();
+    }
+
     template <typename T>
     T RegularizedNucleusT<T>::get_a() const {
       return a;
-- 
2.43.0


From adb76af7c041d595002b3a284d5714246da419fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:23 +0000
Subject: [PATCH 13/40] fix: van der Waals radius is where the density crosses
 the requested threshold

---
 src/sadatom/basis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index a6fd2de..97608ee 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -840,11 +840,11 @@ namespace helfem {
             helfem::Vector m = a + (b-a)/2.0;
             double density_m = angfac*electron_density(m, iel, Prad, rsqweight)(0);
 
-            if(density_m < eps) {
+            if(density_m < vdw_threshold) {
               b = m;
-            } else if(density_m > eps) {
+            } else if(density_m > vdw_threshold) {
               a = m;
-            } else if(density_m == eps)
+            } else if(density_m == vdw_threshold)
               break;
 
             ibisect++;
-- 
2.43.0


From 73ac10b45a4649bc90926cc49a3eaec9cb417b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:23 +0000
Subject: [PATCH 14/40] fix: electron count radius of a system with too few
 electrons

---
 src/sadatom/basis.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 97608ee..f939066 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -883,6 +883,9 @@ namespace helfem {
 	  else
 	    break;
 	}
+	// There are fewer electrons than requested in the whole system
+	if(ielement>=radial.Nel())
+	  return 0.0;
 
 	// Radial functions in element
 	size_t ifirst, ilast;
-- 
2.43.0


From 031a44ad5177bac416e6c1cc82d50e97c52840a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:26 +0000
Subject: [PATCH 15/40] fix: GGA exchange-correlation screening uses the second
 radial derivative of the density

---
 src/general/atomdb.cpp |  6 ++++--
 src/sadatom/basis.cpp  | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index 6c8fc3b..ef48910 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -347,7 +347,9 @@ namespace helfem {
       double sigma[3] = {0.0, 0.0, 0.0};
       if (xc_->any_gga) {
         grad[0] = grad[1] = 0.5 * density_gradient(r);
-        lapl[0] = lapl[1] = 0.5 * density_laplacian(r);
+        // Second radial derivative: the 2/r piece of the divergence is added
+        // separately below.
+        lapl[0] = lapl[1] = 0.5 * density_laplacian(r) - 2.0 / r * grad[0];
         // Reduced gradients, in libxc's (aa, ab, bb) order.
         sigma[0] = grad[0] * grad[0];
         sigma[1] = grad[0] * grad[1];
@@ -395,7 +397,7 @@ namespace helfem {
         corr[1] += (grad[0] * v2rhosigma[1] + grad[1] * v2rhosigma[4]) * grad[0];
 
         // (l(t) g(t') + g(t) l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s')
-        const double lg = lapl[0] * grad[1] + grad[0] * lapl[1];
+        const double lg = 0.5 * (lapl[0] * grad[1] + grad[0] * lapl[1]);
         const double d2Edsaa = lapl[0] * grad[0] * v2sigma2[0] + lg * v2sigma2[1] +
                                lapl[1] * grad[1] * v2sigma2[2];
         const double d2Edsab = lapl[0] * grad[0] * v2sigma2[1] + lg * v2sigma2[3] +
diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index f939066..49b1d44 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1032,12 +1032,17 @@ namespace helfem {
         // and the density gradient
         helfem::Vector grada(electron_density_gradient(Parad)/angfac);
         helfem::Vector gradb(electron_density_gradient(Pbrad)/angfac);
-        // and the density Laplacian
-        helfem::Vector lapla(electron_density_laplacian(Parad)/angfac);
-        helfem::Vector laplb(electron_density_laplacian(Pbrad)/angfac);
         // Radial coordinates
         helfem::Vector r(radii());
         size_t Npoints(r.size());
+        // and the second radial derivative of the density, i.e. the
+        // Laplacian without the 2/r term that is accounted for separately
+        helfem::Vector lapla(electron_density_laplacian(Parad)/angfac);
+        helfem::Vector laplb(electron_density_laplacian(Pbrad)/angfac);
+        for(size_t ip=1;ip<Npoints;ip++) {
+          lapla(ip) -= 2.0*grada(ip)/r(ip);
+          laplb(ip) -= 2.0*gradb(ip)/r(ip);
+        }
 
         // and pack it for libxc. Store directly in transposed layout so
         // the column-major order is (na0, nb0, na1, nb1, ...).
@@ -1148,9 +1153,10 @@ namespace helfem {
 
           for(size_t ip=1;ip<Npoints;ip++) {
             // Second term: (l(t)g(t') + g(t)l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s'). Contract t and t' first, put in factor two later
-            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
-            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
-            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
+            const double lgab = 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip));
+            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + lgab*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
+            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + lgab*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
+            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + lgab*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
             // and now we can contract this with the gradient
             corr(0,ip) += 4.0*d2Edsaa*grada(ip) + 2.0*d2Edsab*gradb(ip);
             corr(1,ip) += 4.0*d2Edsbb*gradb(ip) + 2.0*d2Edsab*grada(ip);
-- 
2.43.0


From 60f0859159ea2f0c3fbe036b1ce7dd2f404ff0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:26 +0000
Subject: [PATCH 16/40] fix: release the correlation functional in xc_screening

---
 src/sadatom/basis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 49b1d44..100b0a3 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1128,6 +1128,7 @@ namespace helfem {
           } else {
             xc_lda_vxc(&func, rhoa.size(), rho_libxc.data(), vxc_wrk.data());
           }
+          xc_func_end(&func);
 
           vxc+=vxc_wrk;
         }
-- 
2.43.0


From 8f8f4ac1925fecd031504355bfa2a0e475265a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:58 +0000
Subject: [PATCH 17/40] fix: nu derivative of diatomic basis functions is
 regular at the poles

The m cot(nu) Y_l^m term was dropped at cos(nu)=+-1, but its limit is nonzero
for |m|=1. Use the ladder operator form, which holds everywhere.
---
 src/diatomic/basis.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/diatomic/basis.cpp b/src/diatomic/basis.cpp
index 196946c..48b27d9 100644
--- a/src/diatomic/basis.cpp
+++ b/src/diatomic/basis.cpp
@@ -2223,20 +2223,21 @@ namespace helfem {
         // and so is phi
         for(size_t i=0;i<(size_t) lval.size();i++)
           dphi.middleCols(i*Nc,Nc)=(std::complex<double>(0.0,mval(i))*sph(i))*frad.cast<std::complex<double>>();
-        // sin^2(theta) = (1 - cth)(1 + cth) avoids the catastrophic
-        // cancellation in 1 - cth*cth when cth is close to +/- 1.
-        const double sinth = std::sqrt(std::max((1.0-cth)*(1.0+cth), 0.0));
-        const double cotth = (sinth > 0.0) ? cth/sinth : 0.0;
-
-        // but theta is nastier
+        // but theta is nastier. Use the ladder operator form
+        //   dY_l^m/dtheta = 1/2 [ sqrt((l-m)(l+m+1)) e^{-i phi} Y_l^{m+1}
+        //                       - sqrt((l+m)(l-m+1)) e^{ i phi} Y_l^{m-1} ]
+        // which, unlike the form with m cot(theta) Y_l^m, is also valid at
+        // the poles, where the derivative is nonzero for |m|=1.
         for(size_t i=0;i<(size_t) lval.size();i++) {
           int l(lval(i));
           int m(mval(i));
 
           // Angular factor
-          std::complex<double> angfac(m*cotth*sph(i));
-          if(mval(i)<lval(i))
-            angfac+=sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(lval(i),mval(i)+1,cth,phi);
+          std::complex<double> angfac(0.0,0.0);
+          if(m<l)
+            angfac+=0.5*sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(l,m+1,cth,phi);
+          if(m>-l)
+            angfac-=0.5*sqrt((l+m)*(l-m+1))*std::exp(std::complex<double>(0,phi))*::spherical_harmonics(l,m-1,cth,phi);
 
           dth.middleCols(i*Nc,Nc)=angfac*frad.cast<std::complex<double>>();
         }
@@ -2250,23 +2251,21 @@ namespace helfem {
           if(mval(i)==m)
             flist.push_back(i);
 
-        // sin^2(theta) = (1 - cth)(1 + cth) avoids the catastrophic
-        // cancellation in 1 - cth*cth when cth is close to +/- 1.
-        const double sinth = std::sqrt(std::max((1.0-cth)*(1.0+cth), 0.0));
-        const double cotth = (sinth > 0.0) ? cth/sinth : 0.0;
-
         // Angular factors, evaluated at phi = 0 where they are real.
         helfem::Vector sph(flist.size()), dsph(flist.size());
         for(size_t i=0;i<flist.size();i++) {
           const int l(lval(flist[i]));
           const int mm(mval(flist[i]));
           sph(i)=std::real(::spherical_harmonics(l,mm,cth,0.0));
-          // d Y_l^m / d theta = m cot(th) Y_l^m + sqrt((l-m)(l+m+1)) Y_l^{m+1}
-          // (the e^{-i phi} of the raising term is unity at phi = 0).
-          double angfac = mm*cotth*sph(i);
+          // d Y_l^m / d theta in the ladder operator form, valid also at the
+          // poles (the phases are unity at phi = 0).
+          double angfac = 0.0;
           if(mm < l)
-            angfac += std::sqrt((double)(l-mm)*(double)(l+mm+1))
+            angfac += 0.5*std::sqrt((double)(l-mm)*(double)(l+mm+1))
                        * std::real(::spherical_harmonics(l,mm+1,cth,0.0));
+          if(mm > -l)
+            angfac -= 0.5*std::sqrt((double)(l+mm)*(double)(l-mm+1))
+                       * std::real(::spherical_harmonics(l,mm-1,cth,0.0));
           dsph(i)=angfac;
         }
 
-- 
2.43.0


From e9c72572be2760dbc023df4f9e3db874368022bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:24 +0000
Subject: [PATCH 18/40] fix: atomic grid handles Laplacian functionals without
 beta electrons

---
 src/atomic/dftgrid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/atomic/dftgrid.cpp b/src/atomic/dftgrid.cpp
index ff7e7ae..57e8d13 100644
--- a/src/atomic/dftgrid.cpp
+++ b/src/atomic/dftgrid.cpp
@@ -418,7 +418,7 @@ namespace helfem {
         }
 
 
-        if(do_mgga_t) {
+        if(do_mgga_t || do_mgga_l) {
           helfem::Vector vtl_a=helfem::Vector::Zero(wtot.size());
           if(do_mgga_t)
             vtl_a += 0.5*vtau.row(0).transpose();
@@ -450,9 +450,11 @@ namespace helfem {
         }
         if(do_mgga_l) {
           helfem::Vector vl_a=vlapl.row(0).transpose().array()*wtot.array();
-          helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
           helfem::dftgrid_common::increment_mgga_lapl_split(Ha,vl_a,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
-          helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          if(beta) {
+            helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
+            helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          }
         }
 
         for(size_t i=0;i<bf_ind.size();i++)
-- 
2.43.0


From e03d176e95a83957b66b07a918f384590e9bf432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:47 +0000
Subject: [PATCH 19/40] fix: pure-m grid mirrors a block only onto one with the
 same shells

The m and -m blocks were taken to be equal whenever they had the same
number of functions. With different l values in the two blocks the Fock
matrix of one was stored into the other.
---
 src/diatomic/dftgrid_purem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diatomic/dftgrid_purem.cpp b/src/diatomic/dftgrid_purem.cpp
index 9772acb..bd79b7b 100644
--- a/src/diatomic/dftgrid_purem.cpp
+++ b/src/diatomic/dftgrid_purem.cpp
@@ -466,7 +466,8 @@ namespace helfem {
       // quadrature, not of the state.
       size_t PureMDFTGridWorker::mirror_block(size_t im) const {
         for (size_t jm = 0; jm < mlist.size(); jm++)
-          if (mlist[jm] == -mlist[im] && bf_ind_m[jm].size() == bf_ind_m[im].size())
+          if (mlist[jm] == -mlist[im] && bf_ind_m[jm].size() == bf_ind_m[im].size()
+              && lval_m[jm] == lval_m[im])
             return jm;
         return mlist.size();
       }
-- 
2.43.0


From cc581b94500f893f90580e5068addca736cd2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:09 +0000
Subject: [PATCH 20/40] fix: checkpoint passes empty arrays by data()

Taking the address of the first element of an empty vector is undefined.
---
 src/general/checkpoint.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index b266376..8a599d9 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -388,7 +388,7 @@ void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
 
   // Close everything.
   H5Dclose(dataset);
@@ -438,7 +438,7 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   // Allocate memory. HDF5 converts the disk float type to the T memory
   // type on read, so a double-on-disk array loads into any T.
   v.resize(dims[0]);
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
 
   // Close dataspace
   H5Sclose(dataspace);
@@ -475,7 +475,7 @@ void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v)
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
 
   // Close everything.
   H5Dclose(dataset);
@@ -523,7 +523,7 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
 
   // Allocate memory
   v.resize(dims[0]);
-  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
 
   // Close dataspace
   H5Sclose(dataspace);
-- 
2.43.0


From 6b423d7645031fb58310344a00ed0cfe460ca9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:09 +0000
Subject: [PATCH 21/40] fix: checkpoint refuses to read entries of the wrong
 type

Integer matrices and booleans were read from floating point entries, and
strings from arbitrary integer arrays (reading past the end when these
have no terminator). Strings with embedded nulls were cut short.
---
 src/general/checkpoint.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index 8a599d9..fffc69c 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -330,6 +330,15 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // Get the data type
   hid_t datatype = H5Dget_type(dataset);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+
+  if(hclass!=H5T_INTEGER) {
+    std::ostringstream oss;
+    oss << "Error - " << name << " is not an integer value!\n";
+    throw std::runtime_error(oss.str());
+  }
+
   // Get dataspace
   hid_t dataspace = H5Dget_space(dataset);
   // Get number of dimensions
@@ -963,6 +972,11 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
   // Get dataspace
   hid_t dataspace = H5Dget_space(dataset);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+  if(hclass!=H5T_INTEGER)
+    throw std::runtime_error("Error - datatype is not integer!\n");
+
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
   if(type!=H5S_SCALAR)
@@ -1033,7 +1047,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
 
-  if(hclass!=H5T_INTEGER) {
+  if(hclass!=H5T_INTEGER || H5Tget_size(datatype)!=sizeof(char)) {
     std::ostringstream oss;
     oss << "Error - " << name << " does not consist of characters!\n";
     throw std::runtime_error(oss.str());
@@ -1053,11 +1067,12 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   hsize_t dims[ndim];
   H5Sget_simple_extent_dims(dataspace,dims,NULL);
 
-  // Allocate work memory
-  char *wrk=(char *)malloc(dims[0]*sizeof(char));
-  H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk);
-  val=std::string(wrk);
-  free(wrk);
+  // Read the characters; the stored array includes the terminator
+  std::string wrk(dims[0],'\0');
+  H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, &wrk[0]);
+  if(!wrk.empty() && wrk.back()=='\0')
+    wrk.pop_back();
+  val=wrk;
 
   // Close dataspace
   H5Sclose(dataspace);
-- 
2.43.0


From 8dfb2b666c1d424c67dd31be946ac9aba0149928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:01 +0000
Subject: [PATCH 22/40] fix: checkpoint reports failed I/O and releases
 everything on errors

The return codes of H5Dwrite, H5Dread, H5Ldelete, H5Fflush and the close
calls were ignored, so data lost on e.g. a full disk went unnoticed. An
exception in the middle of an access left the file open and the HDF5
identifiers allocated.
---
 src/general/checkpoint.cpp | 506 +++++++++++++++++--------------------
 1 file changed, 230 insertions(+), 276 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index fffc69c..3beeeb3 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -36,6 +36,50 @@ namespace {
     return id;
   }
 
+  // Owner of a HDF5 identifier: releases it also when an exception is thrown.
+  class Handle {
+    hid_t id;
+    herr_t (*closer)(hid_t);
+  public:
+    Handle(hid_t id_, herr_t (*closer_)(hid_t)) : id(id_), closer(closer_) {}
+    Handle(const Handle &) = delete;
+    Handle & operator=(const Handle &) = delete;
+    ~Handle() { if(id >= 0) closer(id); }
+    operator hid_t() const { return id; }
+    // Explicit release. Data may only be written out at this point, so
+    // a failure has to be reported.
+    void close(const char * op, const std::string & ctx) {
+      hid_t old(id);
+      id = -1;
+      hdf5_check(closer(old), op, ctx);
+    }
+  };
+
+  // Opens the file if it is closed, and leaves it in its original state
+  // also when an exception is thrown.
+  class FileGuard {
+    Checkpoint & chk;
+    bool cl;
+  public:
+    explicit FileGuard(Checkpoint & chk_) : chk(chk_), cl(!chk_.is_open()) {
+      if(cl) chk.open();
+    }
+    FileGuard(const FileGuard &) = delete;
+    FileGuard & operator=(const FileGuard &) = delete;
+    ~FileGuard() {
+      if(cl) {
+        // An exception is already being propagated
+        try { chk.close(); } catch(std::exception &) {}
+      }
+    }
+    void finish() {
+      if(cl) {
+        cl=false;
+        chk.close();
+      }
+    }
+  };
+
   // HDF5 datatype selector for the templated floating-point I/O. Returns
   // the HDF5 *native* (in-memory) datatype matching the C++ scalar T; the
   // write path H5Tcopy()s this for the on-disk (file) datatype, so the
@@ -89,8 +133,14 @@ Checkpoint::Checkpoint(const std::string & fname, bool writem, bool trunc) {
 }
 
 Checkpoint::~Checkpoint() {
-  if(opend)
-    close();
+  if(opend) {
+    // Destructors must not throw
+    try {
+      close();
+    } catch(std::exception & e) {
+      fprintf(stderr,"%s",e.what());
+    }
+  }
 }
 
 void Checkpoint::open() {
@@ -115,15 +165,15 @@ void Checkpoint::open() {
 
 void Checkpoint::close() {
   if(opend) {
-    H5Fclose(file);
     opend=false;
+    hdf5_check(H5Fclose(file), "H5Fclose", filename);
   } else
     throw std::runtime_error("Trying to close file that has already been closed!\n");
 }
 
 void Checkpoint::flush() {
   if(opend && writemode)
-      H5Fflush(file,H5F_SCOPE_GLOBAL);
+    hdf5_check(H5Fflush(file,H5F_SCOPE_GLOBAL), "H5Fflush", filename);
 }
 
 bool Checkpoint::is_open() const {
@@ -131,15 +181,11 @@ bool Checkpoint::is_open() const {
 }
 
 bool Checkpoint::exist(const std::string & name) {
-  bool cl=false;
-  if(!opend) {
-    cl=true;
-    open();
-  }
+  FileGuard guard(*this);
 
-  bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT);
+  bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT) > 0;
 
-  if(cl) close();
+  guard.finish();
 
   return ret;
 }
@@ -147,29 +193,21 @@ bool Checkpoint::exist(const std::string & name) {
 void Checkpoint::remove(const std::string & name) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   if(exist(name)) {
     // Remove the entry from the file.
-    H5Ldelete(file, name.c_str(), H5P_DEFAULT);
+    hdf5_check(H5Ldelete(file, name.c_str(), H5P_DEFAULT), "H5Ldelete", name);
   }
 
-  if(cl) close();
+  guard.finish();
 }
 
 template <typename T>
 void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -182,40 +220,36 @@ void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   dims[0]=m.cols();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(2,dims,NULL);
+  Handle dataspace(hdf5_check(H5Screate_simple(2,dims,NULL), "H5Screate_simple", name), H5Sclose);
 
   // Create a datatype. The file datatype matches the T memory type, so
   // T=double stays H5T_IEEE_F64LE (byte-identical to older .chk files).
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  Handle datatype(hdf5_check(H5Tcopy(h5_native_float<T>()), "H5Tcopy", name), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  datatype.close("H5Tclose", name);
+  dataspace.close("H5Sclose", name);
+  guard.finish();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype = H5Dget_type(dataset);
+  Handle datatype(hdf5_check(H5Dget_type(dataset), "H5Dget_type", name), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -227,7 +261,7 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(hdf5_check(H5Dget_space(dataset), "H5Dget_space", name), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=2) {
@@ -246,16 +280,16 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   // float-on-disk; HDF5 converts the disk type to the T memory type on
   // read, so a double .chk loads into a long double / _Float128 run.
   m=helfem::Mat<T>::Zero(dims[1],dims[0]);
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dread", name);
 
   // Close dataspace
-  H5Sclose(dataspace);
+  dataspace.close("H5Sclose", name);
   // Close datatype
-  H5Tclose(datatype);
+  datatype.close("H5Tclose", name);
   // Close dataset
-  H5Dclose(dataset);
+  dataset.close("H5Dclose", name);
 
-  if(cl) close();
+  guard.finish();
 }
 
 template <typename T>
@@ -280,11 +314,7 @@ void Checkpoint::read(const std::string & name, helfem::Vec<T> & v) {
 void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -297,38 +327,34 @@ void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   dims[1]=m.cols();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(2,dims,NULL);
+  Handle dataspace(hdf5_check(H5Screate_simple(2,dims,NULL), "H5Screate_simple", name), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_INT);
+  Handle datatype(hdf5_check(H5Tcopy(H5T_NATIVE_INT), "H5Tcopy", name), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  datatype.close("H5Tclose", name);
+  dataspace.close("H5Sclose", name);
+  guard.finish();
 }
 
 void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype = H5Dget_type(dataset);
+  Handle datatype(hdf5_check(H5Dget_type(dataset), "H5Dget_type", name), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -340,7 +366,7 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(hdf5_check(H5Dget_space(dataset), "H5Dget_space", name), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=2) {
@@ -356,27 +382,23 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // Allocate memory. dims are {n_rows, n_cols} (see write); the
   // column-major buffer is read straight into .data().
   m=Eigen::MatrixXi::Zero(dims[0],dims[1]);
-  H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dread", name);
 
   // Close dataspace
-  H5Sclose(dataspace);
+  dataspace.close("H5Sclose", name);
   // Close datatype
-  H5Tclose(datatype);
+  datatype.close("H5Tclose", name);
   // Close dataset
-  H5Dclose(dataset);
+  dataset.close("H5Dclose", name);
 
-  if(cl) close();
+  guard.finish();
 }
 
 
 template <typename T>
 void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -386,40 +408,36 @@ void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   dims[0]=v.size();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  Handle dataspace(hdf5_check(H5Screate_simple(1,dims,NULL), "H5Screate_simple", name), H5Sclose);
 
   // Create a datatype. File type matches the T memory type, so T=double
   // stays byte-identical (H5T_IEEE_F64LE) to older .chk files.
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  Handle datatype(hdf5_check(H5Tcopy(h5_native_float<T>()), "H5Tcopy", name), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  datatype.close("H5Tclose", name);
+  dataspace.close("H5Sclose", name);
+  guard.finish();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, std::vector<T> & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(hdf5_check(H5Dget_type(dataset), "H5Dget_type", name), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -431,7 +449,7 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(hdf5_check(H5Dget_space(dataset), "H5Dget_space", name), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -447,24 +465,20 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   // Allocate memory. HDF5 converts the disk float type to the T memory
   // type on read, so a double-on-disk array loads into any T.
   v.resize(dims[0]);
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
+  hdf5_check(H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()), "H5Dread", name);
 
   // Close dataspace
-  H5Sclose(dataspace);
+  dataspace.close("H5Sclose", name);
   // Close datatype
-  H5Tclose(datatype);
+  datatype.close("H5Tclose", name);
   // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  guard.finish();
 }
 
 void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -474,38 +488,34 @@ void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v)
   dims[0]=v.size();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  Handle dataspace(hdf5_check(H5Screate_simple(1,dims,NULL), "H5Screate_simple", name), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HSIZE);
+  Handle datatype(hdf5_check(H5Tcopy(H5T_NATIVE_HSIZE), "H5Tcopy", name), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  datatype.close("H5Tclose", name);
+  dataspace.close("H5Sclose", name);
+  guard.finish();
 }
 
 void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(hdf5_check(H5Dget_type(dataset), "H5Dget_type", name), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -517,7 +527,7 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(hdf5_check(H5Dget_space(dataset), "H5Dget_space", name), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -532,24 +542,20 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
 
   // Allocate memory
   v.resize(dims[0]);
-  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()), "H5Dread", name);
 
   // Close dataspace
-  H5Sclose(dataspace);
+  dataspace.close("H5Sclose", name);
   // Close datatype
-  H5Tclose(datatype);
+  datatype.close("H5Tclose", name);
   // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  guard.finish();
 }
 
 void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Atomic calculation
   write("HelFEM_ID",1);
@@ -573,16 +579,12 @@ void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
   write("lval",Eigen::MatrixXi(basis.get_lval()));
   write("mval",Eigen::MatrixXi(basis.get_mval()));
 
-  if(cl) close();
+  guard.finish();
 }
 
 
 void Checkpoint::read(helfem::atomic::basis::TwoDBasis & basis) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Atomic calculation
   int id;
@@ -622,16 +624,12 @@ void Checkpoint::read(helfem::atomic::basis::TwoDBasis & basis) {
   auto poly(std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(poly_id,poly_nnodes)));
   basis=helfem::atomic::basis::TwoDBasis(Z, (helfem::modelpotential::nuclear_model_t) finitenuc, Rrms, poly, zeroder, n_quad, bval, lval.col(0), mval.col(0), Zl, Zr, Rhalf);
   
-  if(cl) close();
+  guard.finish();
 }
 
 void Checkpoint::write(const helfem::diatomic::basis::TwoDBasis & basis) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Atomic calculation
   write("HelFEM_ID",2);
@@ -650,16 +648,12 @@ void Checkpoint::write(const helfem::diatomic::basis::TwoDBasis & basis) {
   write("lval",Eigen::MatrixXi(basis.get_lval()));
   write("mval",Eigen::MatrixXi(basis.get_mval()));
 
-  if(cl) close();
+  guard.finish();
 }
 
 
 void Checkpoint::read(helfem::diatomic::basis::TwoDBasis & basis) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Atomic calculation
   int id;
@@ -691,56 +685,48 @@ void Checkpoint::read(helfem::diatomic::basis::TwoDBasis & basis) {
   auto poly(std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(poly_id,poly_nnodes)));
   basis=helfem::diatomic::basis::TwoDBasis(Z1, Z2, Rhalf, poly, n_quad, bval, lval.col(0), mval.col(0));
   
-  if(cl) close();
+  guard.finish();
 }
 
 template <typename T>
 void Checkpoint::write(const std::string & name, T val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  Handle dataspace(hdf5_check(H5Screate(H5S_SCALAR), "H5Screate", name), H5Sclose);
 
   // Create a datatype. File type matches the T memory type, so T=double
   // stays byte-identical (H5T_IEEE_F64LE) to older .chk files.
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  Handle datatype(hdf5_check(H5Tcopy(h5_native_float<T>()), "H5Tcopy", name), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  datatype.close("H5Tclose", name);
+  dataspace.close("H5Sclose", name);
+  guard.finish();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, T & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(hdf5_check(H5Dget_type(dataset), "H5Dget_type", name), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -752,7 +738,7 @@ void Checkpoint::read(const std::string & name, T & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(hdf5_check(H5Dget_space(dataset), "H5Dget_space", name), H5Sclose);
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
   if(type!=H5S_SCALAR)
@@ -760,65 +746,57 @@ void Checkpoint::read(const std::string & name, T & v) {
 
   // Read. HDF5 converts the disk float type to the T memory type, so a
   // double-on-disk scalar loads into any T.
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
-  H5Sclose(dataspace);
+  dataspace.close("H5Sclose", name);
   // Close datatype
-  H5Tclose(datatype);
+  datatype.close("H5Tclose", name);
   // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  guard.finish();
 }
 
 
 void Checkpoint::write(const std::string & name, int val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  Handle dataspace(hdf5_check(H5Screate(H5S_SCALAR), "H5Screate", name), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_INT);
+  Handle datatype(hdf5_check(H5Tcopy(H5T_NATIVE_INT), "H5Tcopy", name), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  datatype.close("H5Tclose", name);
+  dataspace.close("H5Sclose", name);
+  guard.finish();
 }
 
 void Checkpoint::read(const std::string & name, int & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(hdf5_check(H5Dget_type(dataset), "H5Dget_type", name), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(hdf5_check(H5Dget_space(dataset), "H5Dget_space", name), H5Sclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -831,64 +809,56 @@ void Checkpoint::read(const std::string & name, int & v) {
     throw std::runtime_error("Error - dataspace is not of scalar type!\n");
 
   // Read
-  H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
-  H5Sclose(dataspace);
+  dataspace.close("H5Sclose", name);
   // Close datatype
-  H5Tclose(datatype);
+  datatype.close("H5Tclose", name);
   // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  guard.finish();
 }
 
 void Checkpoint::write(const std::string & name, hsize_t val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  Handle dataspace(hdf5_check(H5Screate(H5S_SCALAR), "H5Screate", name), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HSIZE);
+  Handle datatype(hdf5_check(H5Tcopy(H5T_NATIVE_HSIZE), "H5Tcopy", name), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  datatype.close("H5Tclose", name);
+  dataspace.close("H5Sclose", name);
+  guard.finish();
 }
 
 void Checkpoint::read(const std::string & name, hsize_t & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(hdf5_check(H5Dget_type(dataset), "H5Dget_type", name), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(hdf5_check(H5Dget_space(dataset), "H5Dget_space", name), H5Sclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -901,15 +871,15 @@ void Checkpoint::read(const std::string & name, hsize_t & v) {
     throw std::runtime_error("Error - dataspace is not of scalar type!\n");
 
   // Read
-  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
-  H5Sclose(dataspace);
+  dataspace.close("H5Sclose", name);
   // Close datatype
-  H5Tclose(datatype);
+  datatype.close("H5Tclose", name);
   // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  guard.finish();
 }
 
 void Checkpoint::write(const std::string & name, bool val) {
@@ -926,51 +896,43 @@ void Checkpoint::read(const std::string & name, bool & v) {
 
 void Checkpoint::write_hbool(const std::string & name, hbool_t val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Remove possibly existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  Handle dataspace(hdf5_check(H5Screate(H5S_SCALAR), "H5Screate", name), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HBOOL);
+  Handle datatype(hdf5_check(H5Tcopy(H5T_NATIVE_HBOOL), "H5Tcopy", name), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  datatype.close("H5Tclose", name);
+  dataspace.close("H5Sclose", name);
+  guard.finish();
 }
 
 void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(hdf5_check(H5Dget_type(dataset), "H5Dget_type", name), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(hdf5_check(H5Dget_space(dataset), "H5Dget_space", name), H5Sclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -983,25 +945,21 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
     throw std::runtime_error("Error - dataspace is not of scalar type!\n");
 
   // Read
-  H5Dread(dataset, H5T_NATIVE_HBOOL, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_HBOOL, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
-  H5Sclose(dataspace);
+  dataspace.close("H5Sclose", name);
   // Close datatype
-  H5Tclose(datatype);
+  datatype.close("H5Tclose", name);
   // Close dataset
-  H5Dclose(dataset);
+  dataset.close("H5Dclose", name);
 
-  if(cl) close();
+  guard.finish();
 }
 
 void Checkpoint::write(const std::string & name, const std::string & val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
 
   // Remove possibly existing entry
   remove(name);
@@ -1011,38 +969,34 @@ void Checkpoint::write(const std::string & name, const std::string & val) {
   dims[0]=val.size()+1;
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  Handle dataspace(hdf5_check(H5Screate_simple(1,dims,NULL), "H5Screate_simple", name), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_CHAR);
+  Handle datatype(hdf5_check(H5Tcopy(H5T_NATIVE_CHAR), "H5Tcopy", name), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.c_str());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.c_str()), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  datatype.close("H5Tclose", name);
+  dataspace.close("H5Sclose", name);
+  guard.finish();
 }
 
 void Checkpoint::read(const std::string & name, std::string & val) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  FileGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(hdf5_check(H5Dget_type(dataset), "H5Dget_type", name), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -1054,7 +1008,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(hdf5_check(H5Dget_space(dataset), "H5Dget_space", name), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -1069,18 +1023,18 @@ void Checkpoint::read(const std::string & name, std::string & val) {
 
   // Read the characters; the stored array includes the terminator
   std::string wrk(dims[0],'\0');
-  H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, &wrk[0]);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, &wrk[0]), "H5Dread", name);
   if(!wrk.empty() && wrk.back()=='\0')
     wrk.pop_back();
   val=wrk;
 
   // Close dataspace
-  H5Sclose(dataspace);
+  dataspace.close("H5Sclose", name);
   // Close datatype
-  H5Tclose(datatype);
+  datatype.close("H5Tclose", name);
   // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
+  dataset.close("H5Dclose", name);
+  guard.finish();
 }
 
 // Explicit instantiations of the templated floating-point I/O. The
-- 
2.43.0


From 8daa32e729d5cd09d048508d878cda7cf154ba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 23/40] fix: eig_gsym_sub skips empty symmetry blocks and
 checks before storing

An index list that gave too many vectors was only noticed after the vectors
had been written past the end of the result, and a symmetry block without
functions was sent to the eigensolver as an empty matrix.
---
 src/general/scf_helpers.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index b89ccbf..9e88a18 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -57,6 +57,12 @@ namespace helfem {
       E = helfem::Vector::Zero(F.rows());
       C = helfem::Matrix::Zero(F.rows(), F.rows());
 
+      auto mismatch = [&F](Eigen::Index n) {
+        std::ostringstream oss;
+        oss << "Symmetry mismatch: expected " << F.rows() << " vectors but got " << n << "!\n";
+        throw std::logic_error(oss.str());
+      };
+
       Eigen::Index iidx = 0;
       for (size_t isym = 0; isym < m_idx.size(); ++isym) {
         const std::vector<Eigen::Index> & rows = m_idx[isym];
@@ -74,6 +80,12 @@ namespace helfem {
 
         helfem::Vector Esub;
         helfem::Matrix Csub;
+        // Make sure the vectors fit before storing any of them.
+        if (iidx + static_cast<Eigen::Index>(Sind.size()) > F.rows())
+          mismatch(iidx + static_cast<Eigen::Index>(Sind.size()));
+        if (Sind.empty())
+          continue;
+
         const helfem::Matrix SinvhSub = Sinvh(Eigen::all, Sind);
         eig_gsym(Esub, Csub, F, SinvhSub);
 
@@ -81,11 +93,8 @@ namespace helfem {
         C.middleCols(iidx, Csub.cols()) = Csub;
         iidx += Esub.size();
       }
-      if (iidx != F.rows()) {
-        std::ostringstream oss;
-        oss << "Symmetry mismatch: expected " << F.rows() << " vectors but got " << iidx << "!\n";
-        throw std::logic_error(oss.str());
-      }
+      if (iidx != F.rows())
+        mismatch(iidx);
 
       // Sort energies ascending.
       const auto Eord = sort_index_ascending(E);
-- 
2.43.0


From 9af89870b65b23cf497d6283e580a6f54e597969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 24/40] fix: |m| symmetry blocks keep their partner in saved
 and loaded densities

With --symmetry=3 a block also stands for its -|m| partner, but the density
saved at the end of the calculation put all electrons of the block on +|m|,
i.e. two electrons in one spin-orbital, and loading a density clamped such
a block to the occupation of a single one.
---
 src/diatomic/main.cpp           | 11 +++++++----
 src/general/scf_driver_common.h | 34 +++++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 9ed9424..3c30d1a 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -633,13 +633,16 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k],
+            block_degeneracy[k] * max_occ_restr, &dmirror[k]);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k],
+            block_degeneracy[k] * max_occ_open, &dmirror[k]);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k],
+            block_degeneracy[k] * max_occ_open, &dmirror[k]);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
@@ -659,7 +662,7 @@ int main(int argc, char **argv) {
     const auto final_occs = scfsolver.get_orbital_occupations();
     helfem::Matrix Pa_final, Pb_final;
     std::tie(Pa_final, Pb_final) = helfem::scf_driver::assemble_final_density<OOO_Real>(
-        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs);
+        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs, dmirror);
     // Densities written straight through the checkpoint's helfem::Matrix overloads.
     savechk.write("Pa", Pa_final);
     savechk.write("Pb", Pb_final);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index a2ac755..3acccb0 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -230,13 +230,18 @@ namespace helfem {
         OpenOrbitalOptimizer::Orbitals<Real> & orbs,
         OpenOrbitalOptimizer::OrbitalOccupations<Real> & occs,
         const helfem::Matrix & Pspin, const std::vector<Eigen::Index> & idx,
-        const helfem::Matrix & Sinvh_block, double max_occ) {
+        const helfem::Matrix & Sinvh_block, double max_occ,
+        const std::vector<Eigen::Index> * mirror = nullptr) {
       if (idx.empty()) {
         orbs[out_index] = helfem::Matrix::Zero(0, 0);
         occs[out_index] = helfem::Vector::Zero(0);
         return;
       }
-      const helfem::Matrix Pblk  = Pspin(idx, idx);
+      // A mirrored block also holds the electrons of its -|m| partner
+      // (cf. accumulate_density_block).
+      helfem::Matrix Pblk = Pspin(idx, idx);
+      if (mirror != nullptr && !mirror->empty())
+        Pblk += helfem::Matrix(Pspin(*mirror, *mirror));
       const helfem::Matrix Porth = Sinvh_block.transpose() * Pblk * Sinvh_block;
       // SelfAdjointEigenSolver returns eigenvalues in ascending order;
       // reverse for descending (largest occupation first), matching the
@@ -259,14 +264,17 @@ namespace helfem {
     /// matrices from OOO's converged per-block orbitals + occupations.
     /// Restricted case: orbs[k] carries the closed-shell density
     /// (max occ 2); alpha and beta both get half of it. Unrestricted:
-    /// alpha in indices [0, nsym), beta in [nsym, 2*nsym).
+    /// alpha in indices [0, nsym), beta in [nsym, 2*nsym). A nonempty
+    /// mirror[k] is the -|m| partner of block k, which carries half of
+    /// the block's electrons (cf. accumulate_density_block).
     template <typename Real>
     inline std::pair<helfem::Matrix, helfem::Matrix> assemble_final_density(
         size_t Nbf, bool restricted,
         const std::vector<std::vector<Eigen::Index>> & dsym,
         const std::vector<helfem::Matrix> & Sinvh,
         const OpenOrbitalOptimizer::Orbitals<Real> & final_orbs,
-        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs) {
+        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs,
+        const std::vector<std::vector<Eigen::Index>> & mirror = {}) {
       const size_t nsym = dsym.size();
       const Eigen::Index N = static_cast<Eigen::Index>(Nbf);
       helfem::Matrix Pa_final = helfem::Matrix::Zero(N, N);
@@ -274,17 +282,23 @@ namespace helfem {
       for (size_t k = 0; k < nsym; ++k) {
         if (dsym[k].empty()) continue;
         const std::vector<Eigen::Index> & idx = dsym[k];
+        const bool paired = (k < mirror.size() && !mirror[k].empty());
+        auto add_block = [&](helfem::Matrix & P, const helfem::Matrix & Pblock) {
+          P(idx, idx) += Pblock;
+          if (paired) P(mirror[k], mirror[k]) += Pblock;
+        };
+        const double share = paired ? 0.5 : 1.0;
         const helfem::Matrix orb_a_ao = Sinvh[k] * final_orbs[k];
-        const helfem::Vector occ_a    = final_occs[k];
+        const helfem::Vector occ_a    = share * final_occs[k];
         if (restricted) {
           const helfem::Matrix P_block = 0.5 * (orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose());
-          Pa_final(idx, idx) += P_block;
-          Pb_final(idx, idx) += P_block;
+          add_block(Pa_final, P_block);
+          add_block(Pb_final, P_block);
         } else {
           const helfem::Matrix orb_b_ao = Sinvh[k] * final_orbs[nsym + k];
-          const helfem::Vector occ_b    = final_occs[nsym + k];
-          Pa_final(idx, idx) += orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose();
-          Pb_final(idx, idx) += orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose();
+          const helfem::Vector occ_b    = share * final_occs[nsym + k];
+          add_block(Pa_final, orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose());
+          add_block(Pb_final, orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose());
         }
       }
       return {Pa_final, Pb_final};
-- 
2.43.0


From 04cafe27706f032d22be968f5a602c557a806d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:14 +0000
Subject: [PATCH 25/40] fix: erfc expansion series converges relative to its
 own leading power

---
 libhelfem/src/erfc_expn.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libhelfem/src/erfc_expn.cpp b/libhelfem/src/erfc_expn.cpp
index 86cbfbe..c8678e7 100644
--- a/libhelfem/src/erfc_expn.cpp
+++ b/libhelfem/src/erfc_expn.cpp
@@ -184,20 +184,25 @@ namespace helfem {
         T dPhi = T(0);
         unsigned int k;
         const T tol = std::numeric_limits<T>::epsilon();
-        // Convergence is tested against max(|Phi|, 1.0): the relative test
-        // alone fails when alternating-sign cancellation drives |Phi| toward
-        // zero, even though the increment is genuinely below numerical noise.
+        // The leading power xi^n is taken out of the sum: with it inside, small
+        // xi makes every increment fall below the threshold at once, and the
+        // series stops before the result has the accuracy of T.
+        // Convergence is tested against max(|Phi|, 1.0) (in terms of the full
+        // terms when xi > 1): the relative test alone fails when
+        // alternating-sign cancellation drives |Phi| toward zero, even though
+        // the increment is genuinely below numerical noise.
         // The cap is 200 (was 30): at long double / _Float128 the eps(T)
         // tolerance is far tighter, so the series needs more terms before the
         // increment falls under noise. At T = double the eps break still fires
         // by k ~ 30, leaving the double results untouched.
+        const T scale = std::min(T(1), std::pow(xi,-(int)n));
         bool converged = false;
         for(k=0; k<=200; k+=2) {
           // Unroll odd values so that we don't truncate too soon by accident
-          dPhi = Dnk<T>(n,k  ,Xi)*std::pow(xi,(int)(n+2*k))
-            +    Dnk<T>(n,k+1,Xi)*std::pow(xi,(int)(n+2*(k+1)));
+          dPhi = Dnk<T>(n,k  ,Xi)*std::pow(xi,(int)(2*k))
+            +    Dnk<T>(n,k+1,Xi)*std::pow(xi,(int)(2*(k+1)));
           Phi += dPhi;
-          if(std::abs(dPhi) < tol*std::max(std::abs(Phi), T(1))) {
+          if(std::abs(dPhi) < tol*std::max(std::abs(Phi), scale)) {
             converged = true;
             break;
           }
@@ -210,7 +215,7 @@ namespace helfem {
           throw std::runtime_error(oss.str());
         }
 
-        return Phi/std::pow(Xi,(int)(n+1));
+        return Phi*std::pow(xi/Xi,(int)n)/Xi;
       }
 
       // Wrapper
-- 
2.43.0


From c51a9745e9544dfc99198b47dfaab56131a573be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:56 +0000
Subject: [PATCH 26/40] fix: integrals between two bases split at the
 potential's break points

---
 libhelfem/include/RadialBasis.h |  7 +++++--
 libhelfem/src/RadialBasis.cpp   | 24 ++++++++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/libhelfem/include/RadialBasis.h b/libhelfem/include/RadialBasis.h
index 9bb0d93..16fded8 100644
--- a/libhelfem/include/RadialBasis.h
+++ b/libhelfem/include/RadialBasis.h
@@ -201,11 +201,14 @@ namespace helfem {
         /// Chebyshev quadrature on each pair's r-overlap interval, with
         /// n_quad = max(this->n_quad, rh.n_quad). Only B0, B1, B2 are
         /// meaningful here -- R-kinds (B(r)/r) are tied to a single basis's
-        /// element-length and aren't well-defined cross-basis.
+        /// element-length and aren't well-defined cross-basis. The overlap
+        /// intervals are additionally split at `breakpoints` (radii where
+        /// the weight is not smooth).
         helfem::Mat<T> matrix_element(
             const FEMRadialBasisT & rh,
             BasisKind bra, BasisKind ket,
-            const std::function<T(T)> & weight = std::function<T(T)>()) const;
+            const std::function<T(T)> & weight = std::function<T(T)>(),
+            const std::vector<T> & breakpoints = std::vector<T>()) const;
 
         /// Compute overlap matrix (Eigen-typed; Phase 2a migration).
         helfem::Mat<T> overlap() const override;
diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 7a92b6d..26453d9 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -355,7 +355,8 @@ namespace helfem {
       helfem::Mat<T> FEMRadialBasisT<T>::matrix_element(
           const FEMRadialBasisT<T> & rh,
           BasisKind bra, BasisKind ket,
-          const std::function<T(T)> & weight) const {
+          const std::function<T(T)> & weight,
+          const std::vector<T> & breakpoints) const {
         // List overlapping (iel, jel) element pairs.
         std::vector<std::vector<size_t>> overlap(fem.get_nelem());
         for (size_t iel = 0; iel < fem.get_nelem(); ++iel) {
@@ -383,10 +384,22 @@ namespace helfem {
               helfem::Mat<T> S = helfem::Mat<T>::Zero(Nbf(), rh.Nbf());
               for (size_t iel = 0; iel < fem.get_nelem(); ++iel) {
                 for (size_t jel : overlap[iel]) {
-                  const T intstart = std::max(fem.element_begin(iel),
+                  const T ovlstart = std::max(fem.element_begin(iel),
                                               rh.fem.element_begin(jel));
-                  const T intend   = std::min(fem.element_end(iel),
+                  const T ovlend   = std::min(fem.element_end(iel),
                                               rh.fem.element_end(jel));
+
+                  // Split the interval where the weight is not smooth.
+                  std::vector<T> edge(1, ovlstart);
+                  for (T bp : breakpoints)
+                    if (bp > ovlstart && bp < ovlend)
+                      edge.push_back(bp);
+                  edge.push_back(ovlend);
+                  std::sort(edge.begin(), edge.end());
+
+                  for (size_t ip = 0; ip + 1 < edge.size(); ++ip) {
+                  const T intstart = edge[ip];
+                  const T intend   = edge[ip + 1];
                   const T intmid   = T(0.5) * (intend + intstart);
                   const T intlen   = T(0.5) * (intend - intstart);
 
@@ -422,6 +435,7 @@ namespace helfem {
                   // ifunc^T * diag(wtot) * jfunc = (ifunc^T * wtot.asDiagonal()) * jfunc.
                   S.block((Eigen::Index) ifirst, (Eigen::Index) jfirst, Ni, Nj)
                       += ifunc.transpose() * wtot.asDiagonal() * jfunc;
+                  }
                 }
               }
               return S;
@@ -443,7 +457,9 @@ namespace helfem {
         return matrix_element(rh,
                               lhder ? BasisKind::B1 : BasisKind::B0,
                               rhder ? BasisKind::B1 : BasisKind::B0,
-                              [model](T r){ return model->V(r); });
+                              [model](T r){ return model->V(r); },
+                              model->breakpoints(fem.element_begin(0),
+                                                 fem.element_end(fem.get_nelem() - 1)));
       }
 
       template <typename T>
-- 
2.43.0


From 09b0183dc550ac5aa258ad4660a0f73bd9e11ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 27/40] fix: order-cap warning flags are written by several
 threads at once; make them atomic

---
 libhelfem/src/FiniteElementBasis.cpp | 6 +++---
 libhelfem/src/RadialBasis.cpp        | 6 +++---
 src/diatomic/basis.cpp               | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/libhelfem/src/FiniteElementBasis.cpp b/libhelfem/src/FiniteElementBasis.cpp
index 80e686a..3c0463a 100644
--- a/libhelfem/src/FiniteElementBasis.cpp
+++ b/libhelfem/src/FiniteElementBasis.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "FiniteElementBasis.h"
+#include <atomic>
 #include <sstream>
 #include <lobatto.h>
 #include <algorithm>
@@ -492,7 +493,7 @@ namespace helfem {
     // ----------------------------------------------------------------------
     namespace {
       // Warn at most once per process if a panel hits the order cap.
-      bool auto_matel_cap_warned = false;
+      std::atomic<bool> auto_matel_cap_warned(false);
 
       // Refine one smooth sub-panel [x_left,x_right] (reference coordinates in
       // [-1,1]) until the block is stable to 8*eps(T), doubling the Gauss-
@@ -540,8 +541,7 @@ namespace helfem {
           prev = cur;
           have = true;
           if (n >= nmax) {
-            if (!auto_matel_cap_warned) {
-              auto_matel_cap_warned = true;
+            if (!auto_matel_cap_warned.exchange(true)) {
               printf("Warning: FiniteElementBasis::matrix_element hit the Gauss-Lobatto"
                      " order cap (n=%d) without converging to eps(T); using best estimate.\n", nmax);
               fflush(stdout);
diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 26453d9..94d7fa8 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -18,6 +18,7 @@
 #include "utils.h"
 #include <chebyshev.h>
 #include <lobatto.h>
+#include <atomic>
 #include <limits>
 // Scalar formatter that prints a T value at its own precision (no truncation
 // to double). Header-only, needs only Matrix.h + std; see src/general/eigen_io.h.
@@ -79,7 +80,7 @@ namespace helfem {
         /// Order cap for the refinement loop.
         const int twoe_nmax = 512;
         /// Warn at most once per process if a primitive hits the order cap.
-        bool twoe_cap_warned = false;
+        std::atomic<bool> twoe_cap_warned(false);
 
         /// Refine `eval(n)` -- which must build its own n-point Lobatto
         /// rule -- by doubling n from nstart until the returned block is
@@ -148,8 +149,7 @@ namespace helfem {
             prev = cur;
             have = true;
             if (n >= twoe_nmax) {
-              if (!twoe_cap_warned) {
-                twoe_cap_warned = true;
+              if (!twoe_cap_warned.exchange(true)) {
                 printf("Warning: FEMRadialBasis::%s hit the Gauss-Lobatto order"
                        " cap (n=%d) without converging to eps(T); using best"
                        " estimate.\n", what, twoe_nmax);
diff --git a/src/diatomic/basis.cpp b/src/diatomic/basis.cpp
index 48b27d9..35e404a 100644
--- a/src/diatomic/basis.cpp
+++ b/src/diatomic/basis.cpp
@@ -20,6 +20,7 @@
 #include "lobatto.h"
 #include <Eigen/Eigenvalues>
 #include "../general/angular_index_helpers.h"
+#include <atomic>
 #include <cstring>
 #include <limits>
 #include <unordered_map>
@@ -100,7 +101,7 @@ namespace helfem {
         /// Order cap for the refinement loop.
         const int twoe_nmax = 512;
         /// Warn at most once per process if the refinement hits the order cap.
-        bool twoe_cap_warned = false;
+        std::atomic<bool> twoe_cap_warned(false);
 
         /// Refine `probe(n)` -- which must rebuild its block using its own
         /// n-point Gauss-Chebyshev rule -- by doubling n from nstart until the
@@ -185,8 +186,7 @@ namespace helfem {
                 if(nconv) *nconv = std::max(nstart, 2);
                 return seed;
               }
-              if(!twoe_cap_warned) {
-                twoe_cap_warned = true;
+              if(!twoe_cap_warned.exchange(true)) {
                 printf("Warning: diatomic %s hit the quadrature order cap"
                        " (n=%d) without converging to eps(double); using best"
                        " estimate.\n", what, twoe_nmax);
-- 
2.43.0


From 718dfd3879ce537eed1b3bda51a573c342652601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 28/40] fix: element and functional numbers must be numbers
 throughout, trailing text is refused

---
 src/general/dftfuncs.cpp | 15 +++++++++++++--
 src/general/elements.cpp | 12 ++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/general/dftfuncs.cpp b/src/general/dftfuncs.cpp
index d3f7e31..c837556 100644
--- a/src/general/dftfuncs.cpp
+++ b/src/general/dftfuncs.cpp
@@ -17,6 +17,8 @@
 #include <helfem.h>
 #include <sstream>
 #include <stdexcept>
+#include <cerrno>
+#include <climits>
 #include <cstring>
 #include <cstdio>
 #include <cstdlib>
@@ -63,8 +65,17 @@ std::string get_keyword(int func_id) {
 // Find out ID of functional
 int find_func(std::string name) {
   // Was functional given as a number? If so, use it.
-  if(isdigit(name[0]))
-    return atoi(name.c_str());
+  if(isdigit(name[0])) {
+    char *end;
+    errno=0;
+    const long id=strtol(name.c_str(),&end,10);
+    if(*end!='\0' || errno || id>INT_MAX) {
+      std::ostringstream oss;
+      oss << "\nError: \""<<name<<"\" is not a functional id!\n";
+      throw std::runtime_error(oss.str());
+    }
+    return (int) id;
+  }
 
   // Check if 'none' was specified. This is internal to ERKALE
   if(helfem::utils::stricmp(name,KW_NONE)==0)
diff --git a/src/general/elements.cpp b/src/general/elements.cpp
index c7ed3a1..9ccbfb9 100644
--- a/src/general/elements.cpp
+++ b/src/general/elements.cpp
@@ -16,6 +16,8 @@
 
 #include "elements.h"
 #include "utils.h"
+#include <cerrno>
+#include <climits>
 #include <cstdio>
 #include <cstdlib>
 #include <strings.h>
@@ -28,8 +30,14 @@ int get_Z(std::string el) {
     return 0;
   
   // Is input an integer?
-  if(!isalpha(el[0]))
-    return atoi(el.c_str());
+  if(!isalpha(el[0])) {
+    char *end;
+    errno=0;
+    const long Z=strtol(el.c_str(),&end,10);
+    if(end==el.c_str() || *end!='\0' || errno || Z<INT_MIN || Z>INT_MAX)
+      throw std::runtime_error("\"" + el + "\" is neither an element nor a nuclear charge!\n");
+    return (int) Z;
+  }
 
   // Parse for input
   for(int Z=1;Z<(int) (sizeof(element_symbols)/sizeof(element_symbols[0]));Z++)
-- 
2.43.0


From 4562ad1a9e60fc4e952c305d6b51f30eee3e1142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:49 +0000
Subject: [PATCH 29/40] fix: negative explicit electron counts are refused

---
 src/general/scf_helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index 9e88a18..36a9799 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -156,6 +156,12 @@ namespace helfem {
         }
 
       } else {
+        if(nela<0 || nelb<0) {
+          std::ostringstream oss;
+          oss << "nela=" << nela << ", nelb=" << nelb << " is not allowed!\n";
+          throw std::runtime_error(oss.str());
+        }
+
         Q=Z-nela-nelb;
         M=1+nela-nelb;
 
-- 
2.43.0


From da97cf8a84ec3e961d16c024ffcdb937c2977ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 30/40] fix: functional parameters that cannot be read are an
 error, not silently dropped

---
 src/general/scf_helpers.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index 36a9799..1d2253e 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -186,14 +186,24 @@ namespace helfem {
       }
 
       std::vector<double> vals;
+      auto read = [&](std::istream & is) {
+        std::string word;
+        while (is >> word) {
+          std::istringstream number(word);
+          double x;
+          // Anything that isn't a number is an error (including, e.g.,
+          // the name of a file that doesn't exist).
+          if (!(number >> x) || number.peek() != EOF)
+            throw std::runtime_error("Could not parse functional parameters from \"" + input + "\".\n");
+          vals.push_back(x);
+        }
+      };
       if (isfile) {
         std::ifstream f(input.c_str());
-        double x;
-        while (f >> x) vals.push_back(x);
+        read(f);
       } else {
         std::istringstream iss(input);
-        double x;
-        while (iss >> x) vals.push_back(x);
+        read(iss);
       }
 
       r.resize(static_cast<Eigen::Index>(vals.size()));
-- 
2.43.0


From dea128022c1d34d264eb1b98345b7e3c7b2724da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 31/40] fix: tabulated density and its gradient are evaluated
 at the nucleus without dividing by r

---
 src/general/atomdb.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index ef48910..ae7d94f 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -158,12 +158,20 @@ namespace helfem {
     }
 
     double Atom::density(double r) const {
-      const double rr = radial_density(r);
-      return (r > 0.0) ? rr / (4.0 * M_PI * r * r) : 0.0;
+      // The density is finite at the nucleus, where radial_density
+      // vanishes, so it is not divided out of the latter.
+      if (r < 0.0 || r > Rmax_)
+        return 0.0;
+      double xprim;
+      const size_t iel = locate(radial_.get_fem(), r, xprim);
+      helfem::Vector x(1);
+      x(0) = xprim;
+      const helfem::Matrix bf = radial_.get_bf(x, iel);
+      return (bf * Psub_[iel] * bf.transpose())(0, 0) / (4.0 * M_PI);
     }
 
     double Atom::density_gradient(double r) const {
-      if (r <= 0.0 || r > Rmax_)
+      if (r < 0.0 || r > Rmax_)
         return 0.0;
       double xprim;
       const size_t iel = locate(radial_.get_fem(), r, xprim);
-- 
2.43.0


From 0da412ec56f1b554d350214de336aa811ad0d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 32/40] fix: functional handles of a tabulated atom can be
 requested by several threads

---
 src/general/atomdb.cpp | 31 ++++++++++++++++++++++++++-----
 src/general/atomdb.h   |  4 ++--
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index ae7d94f..8db256f 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -17,6 +17,7 @@
 #include "dftfuncs.h"
 #include <lobatto.h>
 #include <xc.h>
+#include <mutex>
 #include <utility>
 #include <sstream>
 #include <stdexcept>
@@ -85,7 +86,9 @@ namespace helfem {
       return basis;
     }
 
-    Atom::Atom(int Z) : Z_(Z), radial_(shared_basis()) {
+    static std::shared_ptr<XCCache> make_xc_cache();
+
+    Atom::Atom(int Z) : Z_(Z), radial_(shared_basis()), xc_(make_xc_cache()) {
       check(Z, 0);
 
       // Contract the orbitals into the total density matrix.
@@ -332,6 +335,25 @@ namespace helfem {
       XCFunctionals & operator=(const XCFunctionals &) = delete;
     };
 
+    /// The handles are requested from const member functions, which may
+    /// run concurrently: a caller works on its own reference, and the
+    /// cached one only changes hands under the lock.
+    struct XCCache {
+      std::mutex lock;
+      std::shared_ptr<const XCFunctionals> funcs;
+
+      std::shared_ptr<const XCFunctionals> get(int x_func, int c_func) {
+        std::lock_guard<std::mutex> guard(lock);
+        if (!funcs || funcs->x_func != x_func || funcs->c_func != c_func)
+          funcs = std::make_shared<const XCFunctionals>(x_func, c_func);
+        return funcs;
+      }
+    };
+
+    static std::shared_ptr<XCCache> make_xc_cache() {
+      return std::make_shared<XCCache>();
+    }
+
     double Atom::xc_screening(double r, int x_func, int c_func) const {
       if (r <= 0.0 || (x_func <= 0 && c_func <= 0))
         return 0.0;
@@ -343,8 +365,7 @@ namespace helfem {
       if (rho[0] <= 0.0)
         return 0.0;
 
-      if (!xc_ || xc_->x_func != x_func || xc_->c_func != c_func)
-        xc_ = std::make_shared<XCFunctionals>(x_func, c_func);
+      const std::shared_ptr<const XCFunctionals> xc = xc_->get(x_func, c_func);
 
       // The density derivatives are only worth having if something asks
       // for them. The Laplacian in particular costs two orders of
@@ -353,7 +374,7 @@ namespace helfem {
       // 150x slower than it needed to be.
       double grad[2] = {0.0, 0.0}, lapl[2] = {0.0, 0.0};
       double sigma[3] = {0.0, 0.0, 0.0};
-      if (xc_->any_gga) {
+      if (xc->any_gga) {
         grad[0] = grad[1] = 0.5 * density_gradient(r);
         // Second radial derivative: the 2/r piece of the divergence is added
         // separately below.
@@ -370,7 +391,7 @@ namespace helfem {
       double v2sigma2[6] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
       bool do_gga = false;
 
-      for (const auto & fp : xc_->funcs) {
+      for (const auto & fp : xc->funcs) {
         const xc_func_type & f = fp.first;
         double v[2] = {0.0, 0.0};
         if (fp.second) {
diff --git a/src/general/atomdb.h b/src/general/atomdb.h
index d9a763e..67aa36d 100644
--- a/src/general/atomdb.h
+++ b/src/general/atomdb.h
@@ -67,7 +67,7 @@ namespace helfem {
     /// Initialized libxc handles, cached across evaluations. Opaque here
     /// so that atomdb.h -- and through it model_potential.h, an installed
     /// public header -- does not drag libxc into every consumer.
-    struct XCFunctionals;
+    struct XCCache;
 
     /// A tabulated atom, ready to be evaluated at arbitrary r.
     ///
@@ -94,7 +94,7 @@ namespace helfem {
       double Rmax_;
       /// libxc handles, initialized on first use for whichever
       /// functionals are asked for and reused afterwards.
-      mutable std::shared_ptr<XCFunctionals> xc_;
+      std::shared_ptr<XCCache> xc_;
 
     public:
       /// Integral over the part of element iel between the reference
-- 
2.43.0


From e2c712290ac69d5a6278ec7099f357bb9e2f1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 33/40] fix: midbond probe orbitals are multiplied by the
 Legendre function of their own polar angle

---
 src/diatomic/twodquadrature.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diatomic/twodquadrature.cpp b/src/diatomic/twodquadrature.cpp
index 56f34f0..f305432 100644
--- a/src/diatomic/twodquadrature.cpp
+++ b/src/diatomic/twodquadrature.cpp
@@ -275,7 +275,10 @@ namespace helfem {
           for(size_t ia=0;ia<wang.size();ia++)
             for(size_t ir=0;ir<wrad.size();ir++) {
               size_t idx=ia*wrad.size()+ir;
-              double cthval = cth(ia);
+              // Polar angle around the bond center: z = Rhalf*chmu*cth, at the
+              // distance used in ao_projection
+              double rc = std::sqrt(std::max(chmu(ir)*chmu(ir) + cth(ia)*cth(ia) - 1.0, 0.0));
+              double cthval = (rc > 0.0) ? chmu(ir)*cth(ia)/rc : 1.0;
               double Plm = eval_Plm(cthval);
               for(size_t ix=0;ix<itg.rows();ix++)
                 itg(ix,idx)*=Plm;
-- 
2.43.0


From ba25360bdb485664b1547352836a7a486373090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 34/40] fix: infinite Gaussian and Slater exponents are
 malformed

---
 libhelfemqc/include/GTO.h | 2 +-
 libhelfemqc/include/STO.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhelfemqc/include/GTO.h b/libhelfemqc/include/GTO.h
index 684ecdf..f2d0af2 100644
--- a/libhelfemqc/include/GTO.h
+++ b/libhelfemqc/include/GTO.h
@@ -114,7 +114,7 @@ namespace helfem {
           for (const auto & p : c.primitives) {
             if (p.n < 0)
               throw std::logic_error("make_nao_gto: GTO n must be >= 0.\n");
-            if (p.alpha <= 0.0)
+            if (!(p.alpha > 0.0) || !std::isfinite(p.alpha))
               throw std::logic_error("make_nao_gto: GTO alpha must be > 0.\n");
           }
         }
diff --git a/libhelfemqc/include/STO.h b/libhelfemqc/include/STO.h
index a448e4c..a83a2a6 100644
--- a/libhelfemqc/include/STO.h
+++ b/libhelfemqc/include/STO.h
@@ -133,7 +133,7 @@ namespace helfem {
           for (const auto & p : c.primitives) {
             if (p.n < 1)
               throw std::logic_error("make_nao_sto: STO n must be >= 1.\n");
-            if (p.zeta <= 0.0)
+            if (!(p.zeta > 0.0) || !std::isfinite(p.zeta))
               throw std::logic_error("make_nao_sto: STO zeta must be > 0.\n");
           }
         }
-- 
2.43.0


From 4d4b6d95123f3f9c18e07f60c09b2486b2562acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 35/40] fix: orbitals extracted from an atom share one radial
 basis and can be combined

---
 src/sadatom/basis.cpp | 6 ++++--
 src/sadatom/basis.h   | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 100b0a3..347c209 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1204,6 +1204,9 @@ namespace helfem {
         }
         std::vector<std::pair<int, atomic::basis::NAORadialBasis>> out;
         out.reserve(lmax + 1);
+        // The channels share one copy of the radial basis: NAORadialBasis
+        // only combines orbitals with the same underlying basis.
+        const auto radial = std::make_shared<const atomic::basis::FEMRadialBasis>(sad_basis.get_radial());
         for (int l = 0; l <= lmax; ++l) {
           const int keep = keep_per_l[l];
           if (keep == 0) continue;
@@ -1217,8 +1220,7 @@ namespace helfem {
           }
           const helfem::Matrix Ckeep = (keep < 0) ? Cl
                                              : helfem::Matrix(Cl.leftCols(keep));
-          out.emplace_back(l, atomic::basis::NAORadialBasis::from_owned_radial(
-              sad_basis.get_radial(), Ckeep));
+          out.emplace_back(l, atomic::basis::NAORadialBasis(radial, Ckeep));
         }
         return out;
       }
diff --git a/src/sadatom/basis.h b/src/sadatom/basis.h
index f83ec9e..fdcabc8 100644
--- a/src/sadatom/basis.h
+++ b/src/sadatom/basis.h
@@ -207,9 +207,10 @@ namespace helfem {
       /// use 0 to skip that l-channel).
       ///
       /// Returns one (l, NAORadialBasis) pair per kept l-channel, in
-      /// order of l. Each NAORadialBasis owns its own copy of the
-      /// underlying FEMRadialBasis (shared internally via shared_ptr);
-      /// the returned basis objects can outlive `sad_basis`.
+      /// order of l. The NAORadialBasis objects share one copy of the
+      /// underlying FEMRadialBasis (via shared_ptr), so that they can be
+      /// combined in two-electron operators; the returned basis objects
+      /// can outlive `sad_basis`.
       std::vector<std::pair<int, atomic::basis::NAORadialBasis>>
       extract_naos_per_l(const TwoDBasis & sad_basis,
                          const helfem::Cube & Ccube,
-- 
2.43.0


From 235430b4970b18513265f75b6e0e37b22e1280a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 36/40] fix: invalid element boundaries, coordinates and
 quadrature orders are refused

---
 libhelfem/include/chebyshev.h        |  4 ++++
 libhelfem/src/FiniteElementBasis.cpp | 12 +++++++++++-
 src/general/angular.cpp              |  4 ++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/libhelfem/include/chebyshev.h b/libhelfem/include/chebyshev.h
index 697dbc0..fea00ef 100644
--- a/libhelfem/include/chebyshev.h
+++ b/libhelfem/include/chebyshev.h
@@ -17,6 +17,7 @@
 
 #include <types.h>
 #include <cmath>
+#include <stdexcept>
 
 namespace helfem {
 namespace chebyshev {
@@ -30,6 +31,9 @@ namespace chebyshev {
 /// Templated on the scalar type T.
 template <typename T>
 void chebyshev(int n, Vec<T> & x, Vec<T> & w) {
+  if (n < 1)
+    throw std::runtime_error("Chebyshev quadrature needs at least one point.\n");
+
   x = Vec<T>::Zero(n);
   w = Vec<T>::Zero(n);
 
diff --git a/libhelfem/src/FiniteElementBasis.cpp b/libhelfem/src/FiniteElementBasis.cpp
index 3c0463a..e86bcca 100644
--- a/libhelfem/src/FiniteElementBasis.cpp
+++ b/libhelfem/src/FiniteElementBasis.cpp
@@ -38,6 +38,12 @@ namespace helfem {
       // Phase 5.26: bval is Eigen at both the public boundary and the
       // internal storage; direct assignment, no bridge.
       bval = bval_;
+      // The boundaries have to span at least one element, and to increase
+      if(bval.size() < 2)
+        throw std::logic_error("Need at least two element boundaries!\n");
+      for(Eigen::Index i=0;i+1<bval.size();i++)
+        if(!(bval(i) < bval(i+1)) || !std::isfinite(bval(i)) || !std::isfinite(bval(i+1)))
+          throw std::logic_error("Element boundaries have to be finite and in increasing order!\n");
       poly = std::shared_ptr<const helfem::polynomial_basis::PolynomialBasisT<T>>(poly_->copy());
       // Update list of basis functions
       update_bf_list();
@@ -163,6 +169,8 @@ namespace helfem {
 
     template<typename T>
     void FiniteElementBasisT<T>::add_boundary(T r) {
+      if(!std::isfinite(r))
+        throw std::logic_error("Element boundary has to be finite!\n");
       // Check that r is not in bval
       for (Eigen::Index i = 0; i < bval.size(); ++i)
         if (bval(i) == r)
@@ -239,8 +247,10 @@ namespace helfem {
           return element_middle;
         else if(x < element_begin(element_middle))
           element_right = element_middle;
-        else
+        else if(x > element_end(element_middle))
           element_left = element_middle;
+        else
+          throw std::logic_error("Coordinate is not in any element!\n");
       }
     }
 
diff --git a/src/general/angular.cpp b/src/general/angular.cpp
index 8b5e3a1..a3f2d9c 100644
--- a/src/general/angular.cpp
+++ b/src/general/angular.cpp
@@ -15,10 +15,14 @@
 #include "angular.h"
 #include "chebyshev.h"
 #include "lobatto.h"
+#include <stdexcept>
 
 namespace helfem {
   namespace angular {
     void compound_rule(const helfem::Vector & xcth0, const helfem::Vector & wcth0, int nphi, helfem::Vector & cth, helfem::Vector & phi, helfem::Vector & w) {
+      if(nphi < 1)
+        throw std::runtime_error("Angular quadrature needs at least one phi point.\n");
+
       // Form compound rule
       cth=helfem::Vector::Zero(xcth0.size()*nphi);
       phi=helfem::Vector::Zero(xcth0.size()*nphi);
-- 
2.43.0


From 1d7810eb09881c0ee35e7aeca5c0cc773bfeed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 37/40] fix: density maximum search works with a single
 quadrature point

---
 src/sadatom/basis.cpp | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 347c209..5d74c05 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -746,16 +746,8 @@ namespace helfem {
           // Primitive coordinates
           helfem::Vector a(1), b(1);
 
-          if(imax == 0) {
-            a(0) = -1.0;
-            b(0) = xq(imax+1);
-          } else if(imax == xq.size()-1) {
-            a(0) = xq(imax-1);
-            b(0) = 1.0;
-          } else {
-            a(0) = xq(imax-1);
-            b(0) = xq(imax+1);
-          }
+          a(0) = (imax == 0) ? -1.0 : xq(imax-1);
+          b(0) = (imax == xq.size()-1) ? 1.0 : xq(imax+1);
 
           // Golden ratio search
           double golden_ratio = 0.5*(sqrt(5.0)+1.0);
@@ -823,16 +815,8 @@ namespace helfem {
           // Primitive coordinates
           helfem::Vector a(1), b(1);
 
-          if(imax == 0) {
-            a(0) = -1.0;
-            b(0) = xq(imax+1);
-          } else if(imax == xq.size()-1) {
-            a(0) = xq(imax-1);
-            b(0) = 1.0;
-          } else {
-            a(0) = xq(imax-1);
-            b(0) = xq(imax+1);
-          }
+          a(0) = (imax == 0) ? -1.0 : xq(imax-1);
+          b(0) = (imax == xq.size()-1) ? 1.0 : xq(imax+1);
 
           // Bisection
           size_t ibisect=0;
-- 
2.43.0


From 0a1864f8340fe0d357ff745ee9c0529530280ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 38/40] fix: density-fitting factorisation terminates at the
 roundoff level

---
 src/atomic/TwoDBasis.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/atomic/TwoDBasis.cpp b/src/atomic/TwoDBasis.cpp
index a57a784..3f29823 100644
--- a/src/atomic/TwoDBasis.cpp
+++ b/src/atomic/TwoDBasis.cpp
@@ -654,6 +654,10 @@ namespace helfem {
           //    the J helper, subtracts projections onto previously found
           //    Cholesky vectors, normalises, appends, and updates the
           //    diagonal.
+          //
+          //    The residual diagonal cannot be resolved below the roundoff
+          //    level of its largest element.
+          const T thr = std::max(tol, std::numeric_limits<T>::epsilon() * D.maxCoeff());
           std::vector<helfem::Mat<T>> B_L_vecs;
           while (true) {
             // Eigen is column-major, so maxCoeff scans in the same order
@@ -661,7 +665,7 @@ namespace helfem {
             // pivot (i*, j*) selection and tie-breaking.
             Eigen::Index i_star = 0, j_star = 0;
             const T D_pivot = D.maxCoeff(&i_star, &j_star);
-            if (D_pivot < tol) break;
+            if (!(D_pivot >= thr)) break;
 
             // Build the symmetric pair-density indicator P. For i == j:
             //   P = e_i e_i^T (single 1 on the diagonal).
@@ -695,6 +699,9 @@ namespace helfem {
             // clamped at zero to avoid negative drift.
             D -= v_new.cwiseProduct(v_new);
             D = D.cwiseMax(T(0));
+            // The pivot has been used up, whatever roundoff is left in it
+            D(i_star, j_star) = T(0);
+            D(j_star, i_star) = T(0);
 
             B_L_vecs.push_back(std::move(v_new));
           }
-- 
2.43.0


From 51466d9dbfd5958dc11ac5f2c9337d4a82abc384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 39/40] fix: invalid angular bases and grids without elements
 are refused

---
 libhelfem/include/grid.h            |  3 +++
 src/atomic/TwoDBasis.cpp            |  1 +
 src/diatomic/basis.cpp              |  1 +
 src/general/angular_index_helpers.h | 17 +++++++++++++++++
 4 files changed, 22 insertions(+)

diff --git a/libhelfem/include/grid.h b/libhelfem/include/grid.h
index a42438c..100534c 100644
--- a/libhelfem/include/grid.h
+++ b/libhelfem/include/grid.h
@@ -39,6 +39,9 @@ Vec<T> get_grid(T rmax, int num_el, int igrid, T zexp,
                 bool verbose = false) {
   Vec<T> bval;
 
+  if (num_el < 1)
+    throw std::logic_error("Grid needs at least one element!\n");
+
   switch (igrid) {
     case 1: { // linear
       if (verbose) std::printf("Using linear grid\n");
diff --git a/src/atomic/TwoDBasis.cpp b/src/atomic/TwoDBasis.cpp
index 3f29823..e8579b6 100644
--- a/src/atomic/TwoDBasis.cpp
+++ b/src/atomic/TwoDBasis.cpp
@@ -89,6 +89,7 @@ namespace helfem {
         radial=FEMRadialBasisT<T>(fem, n_quad);
 
         // Construct angular basis
+        check_angular_basis(lval_e, mval_e);
         lval=lval_e;
         mval=mval_e;
       }
diff --git a/src/diatomic/basis.cpp b/src/diatomic/basis.cpp
index 35e404a..b957a67 100644
--- a/src/diatomic/basis.cpp
+++ b/src/diatomic/basis.cpp
@@ -536,6 +536,7 @@ namespace helfem {
         polynomial_basis::FiniteElementBasis fem(poly, bval, zero_func_left, zero_deriv_left, zero_func_right, zero_deriv_right);
         radial=RadialBasis(fem, n_quad);
         // Angular basis.
+        check_angular_basis(lval_, mval_);
         lval=lval_;
         mval=mval_;
 
diff --git a/src/general/angular_index_helpers.h b/src/general/angular_index_helpers.h
index bf4daa3..cafb6e1 100644
--- a/src/general/angular_index_helpers.h
+++ b/src/general/angular_index_helpers.h
@@ -17,9 +17,26 @@
 
 #include <Eigen/Core>
 #include <cstddef>
+#include <cstdlib>
+#include <stdexcept>
 #include <vector>
 
 namespace helfem {
+  // An angular basis is a non-empty list of distinct (l,m) pairs with
+  // |m| <= l; anything else has no well-defined basis set.
+  inline void check_angular_basis(const Eigen::VectorXi & lval,
+                                  const Eigen::VectorXi & mval) {
+    if (lval.size() == 0 || lval.size() != mval.size())
+      throw std::logic_error("Angular basis needs equally many l and m values!\n");
+    for (Eigen::Index i = 0; i < lval.size(); ++i) {
+      if (lval(i) < 0 || std::abs(mval(i)) > lval(i))
+        throw std::logic_error("Angular basis has to have |m| <= l!\n");
+      for (Eigen::Index j = 0; j < i; ++j)
+        if (lval(i) == lval(j) && mval(i) == mval(j))
+          throw std::logic_error("Angular basis has a repeated function!\n");
+    }
+  }
+
   // Collect global basis-function indices belonging to a subset of
   // angular shells. Shells are laid out linearly in the global basis
   // in the order i = 0 .. nshells-1; shell i occupies shell_size(i)
-- 
2.43.0


From 73747bf5310c85530e45236810412831a786cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 40/40] fix: copying a basis no longer reads an uninitialised
 flag

---
 libhelfem/include/FiniteElementBasis.h | 8 ++++----
 src/atomic/TwoDBasis.h                 | 6 +++---
 src/sadatom/basis.h                    | 4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/libhelfem/include/FiniteElementBasis.h b/libhelfem/include/FiniteElementBasis.h
index c8e8823..adc704f 100644
--- a/libhelfem/include/FiniteElementBasis.h
+++ b/libhelfem/include/FiniteElementBasis.h
@@ -41,13 +41,13 @@ namespace helfem {
       // Phase 5.5: members migrated to Eigen.
       helfem::Vec<T> bval;
       /// Zero out function at left end?
-      bool zero_func_left;
+      bool zero_func_left = false;
       /// Zero out derivative at left end?
-      bool zero_deriv_left;
+      bool zero_deriv_left = false;
       /// Zero out function at right end?
-      bool zero_func_right;
+      bool zero_func_right = false;
       /// Zero out derivatives at right end?
-      bool zero_deriv_right;
+      bool zero_deriv_right = false;
 
       /// First basis function in element
       helfem::IVec first_func_in_element;
diff --git a/src/atomic/TwoDBasis.h b/src/atomic/TwoDBasis.h
index f937ed0..62717c9 100644
--- a/src/atomic/TwoDBasis.h
+++ b/src/atomic/TwoDBasis.h
@@ -66,9 +66,9 @@ namespace helfem {
         T Rhalf;
 
         /// Yukawa exchange?
-        bool yukawa;
+        bool yukawa = false;
         /// Range separation parameter
-        T lambda;
+        T lambda = T(0);
 
         /// Radial basis set
         FEMRadialBasisT<T> radial;
@@ -77,7 +77,7 @@ namespace helfem {
         /// Angular basis set: function m values
         Eigen::VectorXi mval;
         /// Zero out derivative at practical infinity?
-        bool zeroder;
+        bool zeroder = false;
 
         /// Auxiliary integrals
         std::vector<helfem::Mat<T>> disjoint_L, disjoint_m1L;
diff --git a/src/sadatom/basis.h b/src/sadatom/basis.h
index fdcabc8..386498d 100644
--- a/src/sadatom/basis.h
+++ b/src/sadatom/basis.h
@@ -32,9 +32,9 @@ namespace helfem {
         double Rrms;
 
         /// Yukawa exchange?
-        bool yukawa;
+        bool yukawa = false;
         /// Range separation parameter
-        double lambda;
+        double lambda = 0.0;
 
         /// Radial basis set
         atomic::basis::FEMRadialBasis radial;
-- 
2.43.0


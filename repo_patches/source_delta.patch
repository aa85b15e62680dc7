From a609112a3d16c5ced0b446a1993926aaf98b94c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 01/79] fix: copied and assigned Integral objects own their
 integrand instead of referring to the original's

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index ab5af53..810c4c4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -396,7 +396,7 @@ Integral::Integral(const Integral& integral)
     , q_rlist2_(integral.q_rlist2_)
     , q_iord_(integral.q_iord_)
 {
-    integrand_ = std::ref(integral.integrand_);
+    integrand_ = integral.integrand_;
 }
 
 //----------------------------------------------------------------------------//
@@ -571,7 +571,7 @@ void Integral::swap(Integral& integral)
     c_.swap(integral.c_);
     d_.swap(integral.d_);
 
-    integrand_ = std::ref(integral.integrand_);
+    integrand_.swap(integral.integrand_);
 
     swap(romberg4refine_, integral.romberg4refine_);
     swap(powerOfSubstitution_, integral.powerOfSubstitution_);
-- 
2.43.0


From 7a4d65e0fb24b882754c9a86fac19fb161369c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 02/79] fix: size the Romberg buffers of Integral for the
 number of Romberg steps

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 810c4c4..f5f5ca0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -359,8 +359,8 @@ Integral::Integral()
         precision_ = 1.e-6;
     }
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
+    iX_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
+    iY_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
 
     aux = std::max(romberg_, romberg4refine_);
     c_.resize(aux);
@@ -446,8 +446,8 @@ Integral::Integral(int romberg, int maxSteps, double precision)
     this->maxSteps_upper_limit_ = maxSteps;
     this->precision_            = precision;
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
+    iX_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
+    iY_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
 
     aux = std::max(romberg_, romberg4refine_);
     c_.resize(aux);
-- 
2.43.0


From bcfdf65ef71966b5fa4629fbd913bc83de299782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 03/79] fix: integration over intervals of a few floating point
 steps terminates

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index f5f5ca0..1c4b7c5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -650,8 +650,11 @@ double Integral::Trapezoid(int n, double oldSum)
     stepSize  = (max_ - min_) / n;
     resultSum = 0;
 
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    // counting the steps guarantees termination, even if the step size is not
+    // resolvable in floating point numbers anymore
+    for (int i = 0; i < n; i++)
     {
+        xStep = min_ + (i + 0.5) * stepSize;
         resultSum += Function(xStep);
     }
 
@@ -673,10 +676,11 @@ double Integral::Trapezoid3(int n, double oldSum)
     stepSize  = (max_ - min_) / n;
     resultSum = 0;
 
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    for (int i = 0; i < n; i += 3)
     {
+        xStep = min_ + (i + 0.5) * stepSize;
         resultSum += Function(xStep);
-        xStep += 2 * stepSize;
+        xStep = min_ + (i + 2.5) * stepSize;
         resultSum += Function(xStep);
     }
 
@@ -715,10 +719,11 @@ double Integral::Trapezoid3S(int n, double oldSum, int stepNumber)
     }
     resultSum = 0;
     flag      = false;
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    for (int i = 0; i < n; i += 3)
     {
+        xStep = min_ + (i + 0.5) * stepSize;
         resultSum += functionValue1 = Function(xStep);
-        xStep += 2 * stepSize;
+        xStep = min_ + (i + 2.5) * stepSize;
         resultSum += functionValue2 = Function(xStep);
 
         if (!flag)
-- 
2.43.0


From ef18b4da4b1629d0404d60e55553ccf47872eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:54 +0000
Subject: [PATCH 04/79] fix: an absolute integral value beyond the limits
 returns the end of the interval

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 1c4b7c5..f470aff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -1225,6 +1225,12 @@ void Integral::RefineUpperLimit(double result)
     // is out of integral range.
     if (randomNumber_ == 0 || randomNumber_ == 1)
     {
+        // An absolute integral value at or beyond the limits is only turned
+        // into 0 or 1 after the integration, randomX_ is a rough estimate then
+        if (randomX_ != min_ && randomX_ != max_)
+        {
+            randomX_ = randomNumber_ == 0 ? min_ : std::nexttoward(max_, min_);
+        }
         return;
     }
 
-- 
2.43.0


From be56391abc401cb11d59c17af0fab1ccded678d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:51 +0000
Subject: [PATCH 05/79] fix: Polynom copies own their coefficients, constants
 have a derivative and the json form works

---
 src/PROPOSAL/PROPOSAL/math/Function.h         |  2 +-
 .../detail/PROPOSAL/math/Function.cxx         | 23 +++++++++----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Function.h b/src/PROPOSAL/PROPOSAL/math/Function.h
index b2aefe5..465be78 100644
--- a/src/PROPOSAL/PROPOSAL/math/Function.h
+++ b/src/PROPOSAL/PROPOSAL/math/Function.h
@@ -66,7 +66,7 @@ class Polynom {
 
    protected:
     int N_;
-    double* coeff_;
+    std::vector<double> coeff_;
 };
 
 }  // namespace PROPOSAL
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 0138e80..64b759b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -12,19 +12,16 @@
 
 using namespace PROPOSAL;
 
-Polynom::Polynom(std::vector<double> coefficients) : N_(coefficients.size()) {
-    coeff_ = new double[N_];
-
-    std::copy(coefficients.begin(), coefficients.end(), coeff_);
-}
+Polynom::Polynom(std::vector<double> coefficients)
+    : N_(coefficients.size()), coeff_(coefficients) {}
 
 Polynom::Polynom(const nlohmann::json& config) {
-    if(!config.is_array()) throw std::invalid_argument("Polynom is not an array.");
+    if(!config.contains("coefficients")) throw std::invalid_argument("Polynom: coefficients must be defined.");
+    if(!config["coefficients"].is_array() || config["coefficients"].empty())
+        throw std::invalid_argument("Polynom: coefficients is not a (non-empty) array.");
 
-    N_ = config["coefficients"].get<std::vector<double>>().size();
-    coeff_ = new double[N_];
-
-    std::copy(config["coefficients"].get<std::vector<double>>().begin(), config["coefficients"].get<std::vector<double>>().end(), coeff_);
+    coeff_ = config["coefficients"].get<std::vector<double>>();
+    N_ = coeff_.size();
 }
 
 Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(poly.coeff_) {}
@@ -85,6 +82,9 @@ Polynom Polynom::GetDerivative() {
     for (auto i = 1; i < N_; ++i)
         derivative_coeff_.push_back(coeff_[i] * i);
 
+    if (derivative_coeff_.empty())
+        derivative_coeff_.push_back(0.);
+
     return Polynom(derivative_coeff_);
 }
 
@@ -98,8 +98,7 @@ Polynom Polynom::GetAntiderivative(double constant) {
 }
 
 std::vector<double> Polynom::GetCoefficient() const {
-    std::vector<double> v(coeff_, coeff_ + N_);
-    return v;
+    return coeff_;
 }
 
 std::function<double(double)> Polynom::GetFunction() {
-- 
2.43.0


From 00e948a930d507fdb906170ff1527aa85242b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 06/79] fix: Spline derivative takes effect and splines built
 from polynomials know their number of subintervals

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 938e313..7ad61fd 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -24,7 +24,7 @@ Spline::Spline(std::vector<double> x, std::vector<double> y) : x_(x), y_(y) {
 Spline::Spline(std::vector<Polynom> splines, std::vector<double> subintervall)
     : splines_(splines),
       subintervall_(subintervall),
-      n_subintervalls_(subintervall_.size()) {}
+      n_subintervalls_(splines_.size()) {}
 
 Spline::Spline(const Spline& spline)
     : splines_(spline.splines_),
@@ -78,7 +78,7 @@ double Spline::evaluate(double x) {
 }
 
 void Spline::Derivative() {
-    for (auto spline : splines_)
+    for (auto& spline : splines_)
         spline = spline.GetDerivative();
 }
 
-- 
2.43.0


From 71c20ee43439657b16408cfea1459a26289b1599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 07/79] fix: saved splines are restored exactly, in text and
 binary form

---
 src/PROPOSAL/PROPOSAL/math/TableWriter.h     | 6 ++++--
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/TableWriter.h b/src/PROPOSAL/PROPOSAL/math/TableWriter.h
index 7685d15..ace66f1 100644
--- a/src/PROPOSAL/PROPOSAL/math/TableWriter.h
+++ b/src/PROPOSAL/PROPOSAL/math/TableWriter.h
@@ -33,6 +33,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <vector>
 
 class Table_write {
@@ -46,7 +47,8 @@ class Table_write {
 
     template <typename T>
     void write(T data) {
-        if (binary_)
+        // only trivially copyable types can be written as raw memory
+        if (binary_ && std::is_trivially_copyable<T>::value)
             file_.write(reinterpret_cast<char*>(&data), sizeof(data));
         else
             file_ << data << '\n';
@@ -72,7 +74,7 @@ class Table_read {
 
     template <typename T>
     void read(T& data) {
-        if (binary_)
+        if (binary_ && std::is_trivially_copyable<T>::value)
             file_.read(reinterpret_cast<char*>(&data), sizeof(data));
         else {
             file_ >> data;
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 7ad61fd..c466311 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -1,6 +1,7 @@
 #include <fstream>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <string>
 #include <utility>
 #include <vector>
@@ -150,10 +151,14 @@ std::istream& operator>>(std::istream& is, Spline& s) {
 }
 
 std::ostream& operator<<(std::ostream& stream, spline_container& s) {
+    // write all digits so that the spline can be restored exactly
+    auto precision
+        = stream.precision(std::numeric_limits<double>::max_digits10);
     stream << s.domain.first << " " << s.domain.second << " "
            << s.coeff.size() - 1 << " ";
     for (auto a_i : s.coeff)
         stream << a_i << " ";
+    stream.precision(precision);
     return stream;
 }
 
-- 
2.43.0


From ad4842eb9084eb08f67f3d735f051c52b90a96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:11 +0000
Subject: [PATCH 08/79] fix: the depth along a radial axis grows when moving
 away from its origin

---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index ec0636a..9af63b2 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -102,7 +102,7 @@ double RadialAxis::GetEffectiveDistance(const Vector3D& xi, const Vector3D& dire
     Cartesian3D aux{Cartesian3D(xi) - fp0_};
     aux.normalize();
 
-    return -aux * direction;
+    return aux * direction;
 }
 
 // %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
-- 
2.43.0


From 417f0aacea0fc405c67c4035d260e00db708c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:11 +0000
Subject: [PATCH 09/79] fix: grammage in polynomial and spline densities is the
 integral of the density along the path

---
 .../PROPOSAL/density_distr/density_polynomial.cxx | 15 ++++++++++++---
 .../PROPOSAL/density_distr/density_splines.cxx    | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index b61cc00..cfce172 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -1,4 +1,5 @@
 
+#include <cmath>
 #include <functional>
 #include "PROPOSAL/math/MathMethods.h"
 #include "PROPOSAL/density_distr/density_polynomial.h"
@@ -50,7 +51,7 @@ double Density_polynomial::Helper_function(const Vector3D& xi,
                                            const Vector3D& direction,
                                            double res,
                                            double l) const {
-    return Integrate(xi, direction, 0) - Integrate(xi, direction, l) + res;
+    return res - Calculate(xi, direction, l);
 }
 
 double Density_polynomial::helper_function(const Vector3D& xi,
@@ -59,7 +60,7 @@ double Density_polynomial::helper_function(const Vector3D& xi,
                                            double l) const {
     (void)res;
     Cartesian3D dir_cartesian(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_polynomial::Correct(const Vector3D& xi,
@@ -88,12 +89,20 @@ double Density_polynomial::Integrate(const Vector3D& xi,
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
     return massDensity_ * antiderived_density_distribution(axis_->GetDepth(xi) + l * delta) /
-           (delta * delta);
+           delta;
 }
 
 double Density_polynomial::Calculate(const Vector3D& xi,
                                      const Vector3D& direction,
                                      double distance) const {
+    double depth = axis_->GetDepth(xi);
+    double change = distance * axis_->GetEffectiveDistance(xi, direction);
+
+    // the difference of the antiderivatives is not defined (or dominated by
+    // rounding) when the depth does not change along the path
+    if (std::abs(change) <= 1e-6 * std::abs(depth))
+        return massDensity_ * density_distribution(depth + change / 2) * distance;
+
     return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
 }
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 6933db5..a381f63 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -1,4 +1,5 @@
 
+#include <cmath>
 #include <functional>
 #include "PROPOSAL/density_distr/density_splines.h"
 #include "PROPOSAL/medium/Medium.h"
@@ -54,7 +55,7 @@ double Density_splines::Helper_function(const Vector3D& xi,
                                         const Vector3D& direction,
                                         double res,
                                         double l) const {
-    return Integrate(xi, direction, 0) - Integrate(xi, direction, l) + res;
+    return res - Calculate(xi, direction, l);
 }
 
 double Density_splines::helper_function(const Vector3D& xi,
@@ -63,7 +64,7 @@ double Density_splines::helper_function(const Vector3D& xi,
                                         double l) const {
     (void)res;
     auto dir_cartesian = Cartesian3D(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_splines::Correct(const Vector3D& xi,
@@ -88,13 +89,21 @@ double Density_splines::Integrate(const Vector3D& xi,
                                   double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
-    return massDensity_ / (delta * delta) *
+    return massDensity_ / delta *
            integrated_spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
 
 double Density_splines::Calculate(const Vector3D& xi,
                                   const Vector3D& direction,
                                   double distance) const {
+    double depth = axis_->GetDepth(xi);
+    double change = distance * axis_->GetEffectiveDistance(xi, direction);
+
+    // the difference of the antiderivatives is not defined (or dominated by
+    // rounding) when the depth does not change along the path
+    if (std::abs(change) <= 1e-6 * std::abs(depth))
+        return massDensity_ * spline_->evaluate(depth + change / 2) * distance;
+
     return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
 }
 
-- 
2.43.0


From 3c4fb6f855bc0be61d333d2c878822094aa49765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:11 +0000
Subject: [PATCH 10/79] fix: exponential density along and nearly perpendicular
 to its planes of constant density

---
 .../PROPOSAL/density_distr/density_exponential.cxx | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
index 02f75e7..461e58d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
@@ -48,9 +48,12 @@ double Density_exponential::Correct(const Vector3D& xi,
     double phi = GetDepth(xi);
     double delta = GetEffectiveDistance(xi, direction);
 
-    double aux = 1. / delta * std::log(1 + std::exp(-phi) * res * delta / massDensity_);
+    double aux = std::exp(-phi) * res / massDensity_;
 
-    if (std::isnan(aux))
+    if (delta != 0)
+        aux = std::log1p(aux * delta) / delta;
+
+    if (!std::isfinite(aux))
         throw DensityException("Next interaction point lies in infinite.");
 
     return aux;
@@ -67,7 +70,12 @@ double Density_exponential::Integrate(const Vector3D& xi,
 double Density_exponential::Calculate(const Vector3D& xi,
                                       const Vector3D& direction,
                                       double distance) const {
-    return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
+    double delta = GetEffectiveDistance(xi, direction);
+
+    if (delta == 0)
+        return Evaluate(xi) * distance;
+
+    return Evaluate(xi) * std::expm1(distance * delta) / delta;
 }
 
 double Density_exponential::Evaluate(const Vector3D& xi) const {
-- 
2.43.0


From acfa8f295030f037334bacb3cf209488caade637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:45 +0000
Subject: [PATCH 11/79] fix: density axes of different kind or direction are
 not equal

---
 src/PROPOSAL/PROPOSAL/density_distr/density_distr.h   |  6 ++++++
 .../detail/PROPOSAL/density_distr/density_distr.cxx   | 11 ++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index 8300c05..ddcb4e9 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -54,6 +54,9 @@ class Axis {
     auto GetFp0() const { return fp0_; };
 
    protected:
+    // compares what derived classes add, called for axes of the same class
+    virtual bool compare(const Axis&) const { return true; };
+
     Cartesian3D fp0_;
 };
 }  // namespace PROPOSAL
@@ -90,6 +93,9 @@ class CartesianAxis : public Axis {
     double GetDepth(const Vector3D& xi) const override;
     double GetEffectiveDistance(const Vector3D& xi, const Vector3D& direction) const override;
 
+   protected:
+    bool compare(const Axis& axis) const override;
+
    private:
     Cartesian3D fAxis_;
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 9af63b2..e020542 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -1,5 +1,6 @@
 
 #include <iostream>
+#include <typeinfo>
 #include "PROPOSAL/Logging.h"
 #include "PROPOSAL/density_distr/density_distr.h"
 #include "PROPOSAL/density_distr/density_exponential.h"
@@ -73,9 +74,11 @@ Axis::Axis(const nlohmann::json& config) {
 Axis::Axis(const Axis& axis) : fp0_(axis.fp0_) {}
 
 bool Axis::operator==(const Axis& axis) const {
+    if(typeid(*this) != typeid(axis))
+        return false;
     if(fp0_ != axis.fp0_)
         return false;
-    return true;
+    return compare(axis);
 }
 
 bool Axis::operator!=(const Axis& axis) const {
@@ -122,11 +125,13 @@ CartesianAxis::CartesianAxis(const nlohmann::json& config) : Axis(config) {
 }
 
 bool CartesianAxis::operator==(const CartesianAxis& axis) const {
-    if(fAxis_ != axis.fAxis_)
-        return false;
     return Axis::operator==(axis);
 }
 
+bool CartesianAxis::compare(const Axis& axis) const {
+    return fAxis_ == static_cast<const CartesianAxis&>(axis).fAxis_;
+}
+
 bool CartesianAxis::operator!=(const CartesianAxis& axis) const {
     return !(*this == axis);
 }
-- 
2.43.0


From d9117da5206a929c50fc858cab46d26cb180ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:45 +0000
Subject: [PATCH 12/79] fix: copied and assigned density distributions own
 their axis and splines and equal the original

---
 .../PROPOSAL/density_distr/density_distr.h    |  2 ++
 .../density_distr/density_polynomial.h        |  2 ++
 .../PROPOSAL/density_distr/density_splines.h  |  2 ++
 .../PROPOSAL/density_distr/density_distr.cxx  |  9 +++++++++
 .../density_distr/density_polynomial.cxx      |  9 +++++++++
 .../density_distr/density_splines.cxx         | 19 +++++++++++++++----
 6 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index ddcb4e9..f830149 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -124,6 +124,8 @@ class Density_distr {
 
     virtual ~Density_distr() { delete axis_; };
 
+    Density_distr& operator=(const Density_distr&);
+
     virtual bool operator==(const Density_distr& dens_distr) const;
     virtual bool operator!=(const Density_distr& dens_distr) const;
     virtual bool compare(const Density_distr& dens_distr) const = 0;
diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h b/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h
index 3ceeebe..8bdd2d8 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h
@@ -44,6 +44,8 @@ class Density_polynomial : public Density_distr {
     Density_polynomial(const nlohmann::json&);
     ~Density_polynomial();
 
+    Density_polynomial& operator=(const Density_polynomial&);
+
     bool compare(const Density_distr& dens_distr) const override;
 
     Density_distr* clone() const override {
diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
index 81cf0c6..4669f02 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
@@ -51,6 +51,8 @@ class Density_splines : public Density_distr {
         delete integrated_spline_;
     }
 
+    Density_splines& operator=(const Density_splines&);
+
     bool compare(const Density_distr& dens_distr) const override;
 
     Density_distr* clone() const override {
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index e020542..2aa00f8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -18,6 +18,15 @@ Density_distr::Density_distr() : axis_(CartesianAxis().clone()), massDensity_(1.
 Density_distr::Density_distr(const Density_distr& density_distr)
     : axis_(density_distr.axis_->clone()), massDensity_(density_distr.massDensity_) {}
 
+Density_distr& Density_distr::operator=(const Density_distr& density_distr) {
+    if (this != &density_distr) {
+        delete axis_;
+        axis_ = density_distr.axis_->clone();
+        massDensity_ = density_distr.massDensity_;
+    }
+    return *this;
+}
+
 Density_distr::Density_distr(const nlohmann::json& config) {
     if(!config.contains("axis_type"))
         throw std::invalid_argument("Axis: Type of axis must be specified using axis_type");
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index cfce172..5cda38e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -38,6 +38,15 @@ Density_polynomial::Density_polynomial(const nlohmann::json& config) : Density_d
 
 Density_polynomial::~Density_polynomial() {}
 
+Density_polynomial& Density_polynomial::operator=(const Density_polynomial& dens) {
+    Density_distr::operator=(dens);
+    polynom_ = dens.polynom_;
+    Polynom_ = dens.Polynom_;
+    density_distribution = polynom_.GetFunction();
+    antiderived_density_distribution = Polynom_.GetFunction();
+    return *this;
+}
+
 bool Density_polynomial::compare(const Density_distr& dens_distr) const {
     const Density_polynomial* dens_poly = dynamic_cast<const Density_polynomial*>(&dens_distr);
     if(!dens_poly)
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index a381f63..edfaf66 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -20,8 +20,19 @@ Density_splines::Density_splines(const PROPOSAL::Axis& axis, const PROPOSAL::Spl
 
 Density_splines::Density_splines(const Density_splines& dens_splines)
     : Density_distr(dens_splines),
-      spline_(dens_splines.spline_),
-      integrated_spline_(dens_splines.integrated_spline_) {}
+      spline_(dens_splines.spline_->clone()),
+      integrated_spline_(dens_splines.integrated_spline_->clone()) {}
+
+Density_splines& Density_splines::operator=(const Density_splines& dens_splines) {
+    if (this != &dens_splines) {
+        Density_distr::operator=(dens_splines);
+        delete spline_;
+        delete integrated_spline_;
+        spline_ = dens_splines.spline_->clone();
+        integrated_spline_ = dens_splines.integrated_spline_->clone();
+    }
+    return *this;
+}
 
 Density_splines::Density_splines(const nlohmann::json& config) : Density_distr(config) {
     if(!config.contains("spline_type"))
@@ -44,9 +55,9 @@ bool Density_splines::compare(const Density_distr& dens_distr) const {
     const Density_splines* dens_splines= dynamic_cast<const Density_splines*>(&dens_distr);
     if(!dens_splines)
         return false;
-    if( spline_!= dens_splines->spline_)
+    if( *spline_ != *dens_splines->spline_)
         return false;
-    if( integrated_spline_!= dens_splines->integrated_spline_)
+    if( *integrated_spline_ != *dens_splines->integrated_spline_)
         return false;
     return true;
 }
-- 
2.43.0


From d4e8cb853761f0a989db0f134d265b2315461378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 13/79] fix: rays through edges and corners of a box cross its
 border where they enter and leave it

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx | 208 +++---------------
 1 file changed, 25 insertions(+), 183 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index 6000455..15c438b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -1,6 +1,7 @@
 
+#include <algorithm>
 #include <cmath>
-#include <vector>
+#include <limits>
 
 #include "PROPOSAL/Constants.h"
 #include "PROPOSAL/Logging.h"
@@ -79,191 +80,32 @@ std::pair<double, double> Box::DistanceToBorder(const Vector3D& position, const
     auto dir_vec = Cartesian3D(direction);
     auto pos_vec = Cartesian3D(position);
 
-    std::pair<double, double> distance;
-    double t;
-    double intersection_x;
-    double intersection_y;
-    double intersection_z;
-
-    std::vector<double> dist;
-
-    double x_calc_pos = position_.GetX() + 0.5 * x_;
-    double x_calc_neg = position_.GetX() - 0.5 * x_;
-    double y_calc_pos = position_.GetY() + 0.5 * y_;
-    double y_calc_neg = position_.GetY() - 0.5 * y_;
-    double z_calc_pos = position_.GetZ() + 0.5 * z_;
-    double z_calc_neg = position_.GetZ() - 0.5 * z_;
-
-    // intersection with E1
-    if (dir_vec.GetX() != 0) // if dir_vec == 0 particle trajectory is parallel to E1
-    {
-        t = (x_calc_pos - pos_vec.GetX()) / dir_vec.GetX();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_y >= y_calc_neg && intersection_y <= y_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E2
-    if (dir_vec.GetX() != 0) // if dir_vec == 0 particle trajectory is parallel to E2
-    {
-        t = (x_calc_neg - pos_vec.GetX()) / dir_vec.GetX();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_y >= y_calc_neg && intersection_y <= y_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E3
-    if (dir_vec.GetY() != 0) // if dir_vec == 0 particle trajectory is parallel to E3
-    {
-        t = (y_calc_pos - pos_vec.GetY()) / dir_vec.GetY();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E4
-    if (dir_vec.GetY() != 0) // if dir_vec == 0 particle trajectory is parallel to E4
-    {
-        t = (y_calc_neg - pos_vec.GetY()) / dir_vec.GetY();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E5
-    if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel to E5
-    {
-        t = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_y >= y_calc_neg &&
-                intersection_y <= y_calc_pos)
-            {
-                dist.push_back(t);
-            }
+    // The trajectory is inside of the box where it is between both planes of all
+    // three pairs of planes. Taking the common range of the three pairs also
+    // holds for trajectories through an edge or a corner of the box.
+    const double range[3] = { x_, y_, z_ };
+    std::pair<double, double> distance(-1., -1.);
+    double t_in = -std::numeric_limits<double>::infinity();
+    double t_out = std::numeric_limits<double>::infinity();
+
+    for (int i = 0; i < 3; ++i) {
+        double calc_pos = position_[i] + 0.5 * range[i];
+        double calc_neg = position_[i] - 0.5 * range[i];
+
+        if (dir_vec[i] != 0) {
+            double t1 = (calc_pos - pos_vec[i]) / dir_vec[i];
+            double t2 = (calc_neg - pos_vec[i]) / dir_vec[i];
+            t_in = std::max(t_in, std::min(t1, t2));
+            t_out = std::min(t_out, std::max(t1, t2));
+        } else if (pos_vec[i] < calc_neg || pos_vec[i] > calc_pos) {
+            // trajectory is parallel to these planes and not between them
+            return distance;
         }
     }
 
-    // intersection with E6
-    if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel to E6
-    {
-        t = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_y >= y_calc_neg &&
-                intersection_y <= y_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    if (dist.size() < 1) // No intersection with the box
-    {
-        distance.first  = -1;
-        distance.second = -1;
-    } else if (dist.size() == 1) // Particle is inside the box and we have one
-                                 // intersection in direction of the particle
-                                 // trajectory
-    {
-        distance.first  = dist.at(0);
-        distance.second = -1;
-    } else if (dist.size() == 2) // Particle is outside and the box is infront
-                                 // of the particle trajectory ( two
-                                 // intersections).
-    {
-        if (dist.at(0) == dist.at(1)) {
-            // Both distances are equal, this means he have hit an edge of the box
-            distance.first = dist.at(0);
-            distance.second = -1;
-        }
-        distance.first  = dist.at(0);
-        distance.second = dist.at(1);
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
-    } else if (dist.size() == 3 && dist.at(0) == dist.at(1) && dist.at(1) == dist.at(2))
-    {
-        // We have three intersections, all of them are equal, this means we
-        // hit an corner of the box
-        distance.first = dist.at(0);
-        distance.second = -1;
-    } else
-    {
-        Logging::Get("proposal.geometry")->error("This point should never be reached... (-1/-1) is returned");
-
-        distance.first  = -1;
-        distance.second = -1;
+    if (t_in < t_out) {
+        distance.first = t_in;
+        distance.second = t_out;
     }
 
     // Make a computer precision controll!
-- 
2.43.0


From 6f5d0d02a69882a2ffb79ce83181294665f68888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:06 +0000
Subject: [PATCH 14/79] fix: rays through the rim of a cylinder cross its
 border where they enter and leave it

---
 .../detail/PROPOSAL/geometry/Cylinder.cxx     | 452 ++----------------
 1 file changed, 52 insertions(+), 400 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 6a5a27c..2f4c5fc 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -1,6 +1,7 @@
 
+#include <algorithm>
 #include <cmath>
-#include <vector>
+#include <limits>
 
 #include "PROPOSAL/Constants.h"
 #include "PROPOSAL/Logging.h"
@@ -86,420 +87,71 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
     // ( dist_1 / -1 ) particle is inside the cylinder or on border and moving
     // inside
 
-    double A, B, C, t1, t2, t;
     auto dir_vec = Cartesian3D(direction);
     auto pos_vec = Cartesian3D(position);
 
-    double determinant;
+    const double inf = std::numeric_limits<double>::infinity();
 
-    double intersection_x;
-    double intersection_y;
-    double intersection_z;
+    double rel_x = pos_vec.GetX() - position_.GetX();
+    double rel_y = pos_vec.GetY() - position_.GetY();
+    double C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
 
-    std::vector<double> dist;
-
-    std::pair<double, double> distance;
-
-    double z_calc_pos = position_.GetZ() + 0.5 * z_;
-    double z_calc_neg = position_.GetZ() - 0.5 * z_;
-
-    if (!(dir_vec.GetX() == 0 && dir_vec.GetY() == 0)) // Otherwise the particle
-                                             // trajectory is parallel to
-                                             // cylinder barrel
-    {
-
-        A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-            std::pow((pos_vec.GetY() - position_.GetY()), 2) -
-            radius_*radius_;
-
-        B = 2 * ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
-
-        C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
-
-        B /= C;
-        A /= C;
-
-        determinant = 0.25 * B*B - A;
-
-        if (determinant > 0) // determinant == 0 (boundery point) is ignored
+    // Range of t in which the trajectory is closer to the axis than radius
+    auto inside_barrel = [&](double radius, bool include_border, double& t_in, double& t_out) {
+        double A = rel_x * rel_x + rel_y * rel_y - radius * radius;
+        if (C == 0) // particle trajectory is parallel to cylinder barrel
         {
-            t1 = -1 * B / 2 + std::sqrt(determinant);
-            t2 = -1 * B / 2 - std::sqrt(determinant);
-
-            // Computer precision controll
-            if (t1 > 0 && t1 < GEOMETRY_PRECISION)
-                t1 = 0;
-            if (t2 > 0 && t2 < GEOMETRY_PRECISION)
-                t2 = 0;
-
-            if (t1 > 0)
-            {
-                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                // is inside the borders
-                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                {
-                    dist.push_back(t1);
-                }
-            }
-
-            if (t2 > 0)
-            {
-                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                // is inside the borders
-                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                {
-                    dist.push_back(t2);
-                }
-            }
-        }
-    }
-
-    // if we have found already to intersections we don't have to check for
-    // intersections
-    // with top or bottom surface
-    if (dist.size() < 2)
-    {
-        // intersection with E1
-        if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel
-                            // to E1 (Should not happen)
-        {
-            t = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
-            // Computer precision controll
-            if (t > 0 && t < GEOMETRY_PRECISION)
-                t = 0;
-
-            if (t > 0) // Interection is in particle trajectory direction
-            {
-                intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-                intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-
-                if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
-                {
-                    dist.push_back(t);
-                }
-            }
+            t_in = -inf;
+            t_out = inf;
+            return include_border ? A <= 0 : A < 0;
         }
+        double B = (rel_x * dir_vec.GetX() + rel_y * dir_vec.GetY()) / C;
+        double determinant = B * B - A / C;
+        if (!(determinant > 0)) // determinant == 0 (boundery point) is ignored
+            return false;
+        t_in = -B - std::sqrt(determinant);
+        t_out = -B + std::sqrt(determinant);
+        return true;
+    };
 
-        // intersection with E2
-        if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel
-                            // to E2 (Should not happen)
-        {
-            t = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
+    std::pair<double, double> distance(-1., -1.);
 
-            // Computer precision controll
-            if (t > 0 && t < GEOMETRY_PRECISION)
-                t = 0;
+    double t_in, t_out;
+    if (!inside_barrel(radius_, true, t_in, t_out))
+        return distance;
 
-            if (t > 0) // Interection is in particle trajectory direction
-            {
-                intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-                intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
+    // Intersection with top and bottom surface
+    double z_calc_pos = position_.GetZ() + 0.5 * z_;
+    double z_calc_neg = position_.GetZ() - 0.5 * z_;
 
-                if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
-                {
-                    dist.push_back(t);
-                }
-            }
-        }
+    if (dir_vec.GetZ() != 0) {
+        double t1 = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
+        double t2 = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
+        t_in = std::max(t_in, std::min(t1, t2));
+        t_out = std::min(t_out, std::max(t1, t2));
+    } else if (pos_vec.GetZ() <= z_calc_neg || pos_vec.GetZ() >= z_calc_pos) {
+        return distance;
     }
-    // No intersection with the outer cylinder
-    if (dist.size() < 1)
-    {
-        distance.first  = -1;
-        distance.second = -1;
-        //    return distance;
-    } else if (dist.size() == 1) // particle is inside the cylinder
-    {
-        distance.first  = dist.at(0);
-        distance.second = -1;
 
-    } else if (dist.size() == 2) // cylinder is infront of the particle
-    {
-        distance.first  = dist.at(0);
-        distance.second = dist.at(1);
-
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
-    } else
-    {
-        Logging::Get("proposal.geometry")->error("This point should never be reached");
+    // This cylinder might be hollow. The trajectory is inside of the cylinder
+    // before and after it is inside of the inner barrel.
+    double hole_in = inf, hole_out = -inf;
+    if (inner_radius_ > 0 && !inside_barrel(inner_radius_, false, hole_in, hole_out)) {
+        hole_in = inf;
+        hole_out = -inf;
     }
-    // This cylinder might be hollow and we have to check if the inner border is
-    // reached before.
-    // So we caluculate the intersection with the inner cylinder.
-
-    if (inner_radius_ > 0)
-    {
-        if (!(dir_vec.GetX() == 0 && dir_vec.GetY() == 0))
-        {
-
-            A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                std::pow((pos_vec.GetY() - position_.GetY()), 2) -
-                inner_radius_*inner_radius_;
-
-            B = 2 *
-                ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
-
-            C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
-
-            B /= C;
-            A /= C;
-
-            determinant = 0.25 * B*B - A;
-
-            if (determinant > 0) // determinant == 0 (boundery point) is ignored
-            {
-                t1 = -1 * B / 2 + std::sqrt(determinant);
-                t2 = -1 * B / 2 - std::sqrt(determinant);
-
-                // Computer precision controll
-                if (t1 > 0 && t1 < GEOMETRY_PRECISION)
-                    t1 = 0;
-                if (t2 > 0 && t2 < GEOMETRY_PRECISION)
-                    t2 = 0;
-
-                // Ok we have a intersection with the inner cylinder
-
-                // If distance.first and distance.second are positive this means
-                // the cylinder is infornt of the particle. So the first
-                // distance
-                // ( intersection with the outer border) does not change
-                // but the second distance has to be updated (intersection with
-                // the inner border)
-                if (distance.first > 0 && distance.second > 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t1 < distance.second)
-                                distance.second = t1;
-                        }
-                    }
-
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t2 < distance.second)
-                                distance.second = t2;
-                        }
-                    }
-                }
-                // The particle trajectory hits the inner cylinder first
-                // (particle flys through the hole and hits inner cylinder
-                // barrel first)
-                //  ___  ^     ___
-                // |   |  \   |   |
-                // |   |   \  |   |
-                // |   |    \ |   |
-                // |   |     \|   |
-                // |   |      *   |
-                // |   |      |\  |
-                // |   |      | x |
-                // |   |      |   |
-                // |___|      |___|
-                else if (distance.first < 0 && distance.second < 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t1;
-                        }
-                    }
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t2;
-                        }
-                    }
-                }
-                // The particle is inside the outer cylinder
-                // or particle hits bottom or top surface and then hits
-                // the inner cylinder barrel
-                else
-                {
-                    // The inner cylinder is infront of the particle trajectory
-                    // distance.first has to be updated
-                    if (t1 > 0 && t2 > 0)
-                    {
-                        //  _____        _____
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // | x---*----->|     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |_____|      |_____|
-                        //
-                        if (pos_vec.GetZ() >= z_calc_neg && pos_vec.GetZ() <= z_calc_pos &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) <=
-                                radius_ + GEOMETRY_PRECISION &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) >=
-                                inner_radius_ - GEOMETRY_PRECISION)
-                        {
-                            if (t1 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t1;
-                                }
-                            }
-                            if (t2 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t2;
-                                }
-                            }
-                        }
-                        //               ^
-                        //  _____       / _____
-                        // |     |     / |     |
-                        // |     |    /  |     |
-                        // |     |   /   |     |
-                        // |     |  /    |     |
-                        // |     | /     |     |
-                        // |     |/      |     |
-                        // |     *       |     |
-                        // |    /|       |     |
-                        // |___/_|       |_____|
-                        //    *
-                        //   x
-                        else
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                // This case means particle is inside in hits
-                                // inner cylinder first
-                                distance.second = t1;
-                            }
 
-                            if (distance.second < 0)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.second = t2;
-                                }
-                            }
-                        }
-                    }
-                    // The particle is inside the inner cylinder
-                    // this means distance.second becomes distanc.first
-                    // and distance.first beomces distance to intersection with
-                    // the inner cylinder in direction of the particle
-                    // trajectory
-                    //  _____        _____
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |  x---*-----*------->
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |_____|      |_____|
-                    //
-                    if ((t1 > 0 && t2 < 0) || (t2 > 0 && t1 < 0))
-                    {
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        } else
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                    }
-                    // Now we have to check if the particle is on the border of
-                    // the inner sphere
-                    if (t1 == 0)
-                    {
-                        // The particle is moving into the inner cylinder
-                        if (t2 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                    if (t2 == 0)
-                    {
-                        // The particle is moving into the inner sphere
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                }
-            }
+    const std::pair<double, double> parts[2] = {
+        { t_in, std::min(t_out, hole_in) },
+        { std::max(t_in, hole_out), t_out },
+    };
+
+    // The next part in direction of the particle trajectory. Parts shorter than
+    // the precision are ignored.
+    for (const auto& part : parts) {
+        if (part.second - std::max(part.first, 0.) >= GEOMETRY_PRECISION) {
+            distance = part;
+            break;
         }
     }
 
-- 
2.43.0


From f6167bb3db95deee3d8d2572acbaae169df473b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:48 +0000
Subject: [PATCH 15/79] fix: entering and leaving are recognised on the inner
 border of hollow geometries

---
 .../detail/PROPOSAL/geometry/Geometry.cxx     | 20 ++++---------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Geometry.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Geometry.cxx
index 13c0e00..164dd7d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Geometry.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Geometry.cxx
@@ -128,26 +128,14 @@ bool Geometry::IsBehind(const Vector3D& position, const Vector3D& direction) con
 
 // ------------------------------------------------------------------------- //
 bool Geometry::IsEntering(const Vector3D &position, const Vector3D &direction) const {
-    auto dist_forward = DistanceToBorder(position, direction);
-    auto dist_backward = DistanceToBorder(position, -Cartesian3D(direction));
-    if (dist_forward.first >= 0 && dist_forward.second == -1) {
-        if (dist_backward.first == -1 && dist_backward.second == -1) {
-            return true;
-        }
-    }
-    return false;
+    // on the border, only the part of the trajectory ahead is inside
+    return IsInside(position, direction) && !IsInside(position, -Cartesian3D(direction));
 }
 
 // ------------------------------------------------------------------------- //
 bool Geometry::IsLeaving(const Vector3D &position, const Vector3D &direction) const {
-    auto dist_forward = DistanceToBorder(position, direction);
-    auto dist_backward = DistanceToBorder(position, -Cartesian3D(direction));
-    if (dist_forward.first == -1 && dist_forward.second == -1) {
-        if (dist_backward.first >= 0 && dist_backward.second == -1) {
-            return true;
-        }
-    }
-    return false;
+    // on the border, only the part of the trajectory behind is inside
+    return !IsInside(position, direction) && IsInside(position, -Cartesian3D(direction));
 }
 
 Geometry::ParticleLocation::Enum Geometry::GetLocation(const Vector3D& position, const Vector3D& direction) const {
-- 
2.43.0


From 7556f0580d3546a59bec7931b5bc8574c4d739e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:10 +0000
Subject: [PATCH 16/79] fix: inner radii in json descriptions of geometries
 keep their fraction, invalid cylinders are rejected

---
 .../detail/PROPOSAL/geometry/Cylinder.cxx        | 16 +++++++++-------
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 2f4c5fc..57ab25a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -32,17 +32,19 @@ Cylinder::Cylinder(const Vector3D& position, double z, double radius, double inn
 Cylinder::Cylinder(const nlohmann::json& config)
     : Geometry(config)
 {
-    assert(config["outer_radius"].is_number());
-    assert(config["height"].is_number());
-
+    if(!config.at("outer_radius").is_number())
+        throw std::invalid_argument("Outer radius is not a number.");
+    if(!config.at("height").is_number())
+        throw std::invalid_argument("Height is not a number.");
 
     radius_ = config["outer_radius"].get<double>();
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
-    assert(inner_radius_>=0);
-    assert(radius_>inner_radius_);
-    assert(z_>0);
+    if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
+    if(radius_ <= inner_radius_)
+        throw std::logic_error("radius must be larger than inner radius");
+    if(z_ <= 0) throw std::logic_error("height must be > 0");
 }
 
 bool Cylinder::compare(const Geometry& geometry) const
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 37a9d50..8210cff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -33,7 +33,7 @@ Sphere::Sphere(const nlohmann::json& config)
 
     config["outer_radius"].get_to(radius_);
 
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
     if(radius_ < inner_radius_)
        throw std::logic_error("radius must be larger than inner radius");
-- 
2.43.0


From 536c75a55763da05508d5c654b49c5858b22132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:10 +0000
Subject: [PATCH 17/79] fix: geometries described in json are equal to the ones
 built directly

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx      | 2 ++
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 2 ++
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index 15c438b..409d9b9 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -22,6 +22,8 @@ Box::Box(const Vector3D& position, double x, double y, double z)
 Box::Box(const nlohmann::json& config)
     : Geometry(config)
 {
+    name_ = "Box";
+
     if(!config.at("length").is_number())
         throw std::invalid_argument("Length is not a number.");
     if(!config.at("width").is_number())
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 57ab25a..d19c558 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -32,6 +32,8 @@ Cylinder::Cylinder(const Vector3D& position, double z, double radius, double inn
 Cylinder::Cylinder(const nlohmann::json& config)
     : Geometry(config)
 {
+    name_ = "Cylinder";
+
     if(!config.at("outer_radius").is_number())
         throw std::invalid_argument("Outer radius is not a number.");
     if(!config.at("height").is_number())
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 8210cff..97abb16 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -27,6 +27,8 @@ Sphere::Sphere(const Vector3D& position, double radius, double inner_radius)
 Sphere::Sphere(const nlohmann::json& config)
     : Geometry(config)
 {
+    name_ = "Sphere";
+
     if(!config.is_object()) throw std::invalid_argument("No json object found.");
     if(!config.at("outer_radius").is_number())
         throw std::invalid_argument("Outer radius is not a number.");
-- 
2.43.0


From cf05646ac6e6e058ccd14054254296b87b160ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:23 +0000
Subject: [PATCH 18/79] fix: staus are registered like the other built-in
 particles

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index c567841..788a11a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -275,6 +275,8 @@ std::unordered_map<int, ParticleDef> ParticleDef::create_particle_map() {
         { static_cast<int>(ParticleType::K0), K0Def() },
         { static_cast<int>(ParticleType::KPlus), KPlusDef() },
         { static_cast<int>(ParticleType::KMinus), KMinusDef() },
+        { static_cast<int>(ParticleType::STauMinus), StauMinusDef() },
+        { static_cast<int>(ParticleType::STauPlus), StauPlusDef() },
         { static_cast<int>(ParticleType::Monopole), MonopoleDef() },
         { static_cast<int>(ParticleType::SMPPlus), SMPPlusDef() },
         { static_cast<int>(ParticleType::SMPMinus), SMPMinusDef() }};
-- 
2.43.0


From 93b3909d4835474eaa170e03c81397a443d49f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:23 +0000
Subject: [PATCH 19/79] fix: leptonic decays with a heavy lepton start their
 root search inside the bracket

---
 src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
index f148dc7..4d09c80 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
@@ -86,7 +86,8 @@ double LeptonicDecayChannelApprox::DifferentialDecayRate(double x, double parent
 double LeptonicDecayChannelApprox::FindRoot(double min, double parent_mass, double E_max, double right_side)
 {
     double max        = 1;
-    double x_start    = 0.5;
+    // the start point has to be inside the bracket
+    double x_start    = (min < 0.5) ? 0.5 : 0.5 * (min + max);
 
     return NewtonRaphson(std::bind(&LeptonicDecayChannelApprox::DecayRate, this, std::placeholders::_1, parent_mass, E_max, right_side),
                          std::bind(&LeptonicDecayChannelApprox::DifferentialDecayRate, this, std::placeholders::_1, parent_mass, E_max),
-- 
2.43.0


From db6149acd59fbf38e9ac5cde3364b414c84df9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:49 +0000
Subject: [PATCH 20/79] fix: boosting a particle that comes to rest keeps its
 direction

---
 src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
index 41c92a2..b89862d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
@@ -66,8 +66,12 @@ void DecayChannel::Boost(ParticleState& particle, const Vector3D& direction_unno
     // Energy will be implicit corrected with respect to the mass:
     particle.SetMomentum(momentum_vec.magnitude());
 
-    momentum_vec.normalize();
-    particle.direction = momentum_vec;
+    // a particle at rest keeps its direction
+    if (momentum_vec.magnitude() > 0.0)
+    {
+        momentum_vec.normalize();
+        particle.direction = momentum_vec;
+    }
 }
 
 // ------------------------------------------------------------------------- //
-- 
2.43.0


From b07042d24b0bf3f2ac6169e4ff0fdc1709814eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:12 +0000
Subject: [PATCH 21/79] fix: leptonic decays at the maximal lepton energy have
 no NaN neutrinos

---
 src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
index 4d09c80..eef8589 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
@@ -110,7 +110,7 @@ std::vector<ParticleState> LeptonicDecayChannelApprox::Decay(const ParticleDef&
 
     double find_root = FindRoot(x_min, p_def.mass, emax, right_side);
 
-    double lepton_energy   = std::max(find_root * emax, massive_lepton_.mass);
+    double lepton_energy   = std::min(std::max(find_root * emax, massive_lepton_.mass), emax);
     double lepton_momentum = std::sqrt((lepton_energy - massive_lepton_.mass) * (lepton_energy + massive_lepton_.mass));
 
 
@@ -124,7 +124,9 @@ std::vector<ParticleState> LeptonicDecayChannelApprox::Decay(const ParticleDef&
 
     // Sample directions For the massless letpon
     double energy_neutrinos   = p_def.mass - lepton_energy;
-    double virtual_mass       = std::sqrt((energy_neutrinos - lepton_momentum) * (energy_neutrinos + lepton_momentum));
+    // (E - p)(E + p) of the neutrinos, which vanishes for the maximal lepton energy
+    double virtual_mass_sq    = std::max(2 * p_def.mass * (emax - lepton_energy), 0.0);
+    double virtual_mass       = std::max(std::sqrt(virtual_mass_sq), 1e-8 * energy_neutrinos);
     double momentum_neutrinos = 0.5 * virtual_mass;
 
 
-- 
2.43.0


From 15d176a52504bee146b41f7b69196db0345d397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:52 +0000
Subject: [PATCH 22/79] fix: decay channels with equal branching ratios do not
 replace each other

---
 src/PROPOSAL/PROPOSAL/decay/DecayTable.h          | 2 +-
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
index a4d9640..6b5c201 100644
--- a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
+++ b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
@@ -42,7 +42,7 @@ void swap(DecayTable&, DecayTable&);
 
 class DecayTable
 {
-    typedef std::map<double, DecayChannel*> DecayMap;
+    typedef std::multimap<double, DecayChannel*> DecayMap; // several channels may have the same ratio
 
 public:
     DecayTable();
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 5c1bf5e..16333f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -28,7 +28,7 @@ DecayTable::DecayTable(const DecayTable& table)
 
     for (DecayMap::const_iterator iter = table.channels_.begin(); iter != table.channels_.end(); ++iter)
     {
-        channels_[iter->first] = iter->second->clone();
+        channels_.emplace(iter->first, iter->second->clone());
     }
 }
 
@@ -136,13 +136,13 @@ void DecayTable::SetStable()
 
     // TODO(mario): Find better way Wed 2017/08/23
     // A stable channel which alwas will be selected
-    channels_[1.1] = new StableChannel();
+    channels_.emplace(1.1, new StableChannel());
 }
 
 // ------------------------------------------------------------------------- //
 DecayTable& DecayTable::addChannel(double Br, const DecayChannel& dc)
 {
-    channels_[Br] = dc.clone();
+    channels_.emplace(Br, dc.clone());
     return *this;
 }
 
-- 
2.43.0


From 52ce62a1336fbb1d1884e5c9d5ad2d3d0b38968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:52 +0000
Subject: [PATCH 23/79] fix: many body decays into different particles of equal
 mass compare unequal

---
 src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
index 23403ab..f59592c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
@@ -84,7 +84,8 @@ bool ManyBodyPhaseSpace::compare(const DecayChannel& channel) const
     } else if (number_of_daughters_ != many_body->number_of_daughters_)
     {
         return false;
-    } else if (daughter_masses_ != many_body->daughter_masses_)
+    } else if (!std::equal(daughters_.begin(), daughters_.end(), many_body->daughters_.begin(),
+                   [](const std::shared_ptr<const ParticleDef>& a, const std::shared_ptr<const ParticleDef>& b) { return *a == *b; }))
     {
         return false;
     } else if (uniform_ != many_body->uniform_)
-- 
2.43.0


From d1711afe2b29878b1b37d638b196b2ba3043ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 24/79] fix: interpolation of order one uses the nearest node
 in arrays and searches

---
 .../detail/PROPOSAL/math/Interpolant.cxx      | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index d0f3300..5ee8a62 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -200,6 +200,11 @@ double Interpolant::InterpolateArray(double x)
     starti_ = i + auxdir;
     start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
 
+    if (romberg_ == 1)
+    {
+        start = starti_;
+    }
+
     if (start < 0)
     {
         start = 0;
@@ -256,6 +261,11 @@ double Interpolant::InterpolateArray(double x1, double x2)
     starti_ = i + auxdir;
     start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
 
+    if (romberg_ == 1)
+    {
+        start = starti_;
+    }
+
     if (start < 0)
     {
         start = 0;
@@ -363,6 +373,11 @@ double Interpolant::FindLimit(double y)
     starti_ = i + auxdir;
     start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
 
+    if (romberg_ == 1)
+    {
+        start = starti_;
+    }
+
     if (start < 0)
     {
         start = 0;
@@ -496,6 +511,11 @@ double Interpolant::FindLimit(double x1, double y)
     starti_ = i + auxdir;
     start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
 
+    if (romberg_ == 1)
+    {
+        start = starti_;
+    }
+
     if (start < 0)
     {
         start = 0;
-- 
2.43.0


From 57d38498f9380e9904251b56c47b4c4bca282e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:31 +0000
Subject: [PATCH 25/79] fix: copied, assigned and loaded interpolation tables
 can be saved, text files keep all digits

---
 .../detail/PROPOSAL/math/Interpolant.cxx      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index 5ee8a62..e824337 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -601,7 +601,7 @@ bool Interpolant::Save(std::string Path, bool binary_tables)
 
         out.open(ss.str().c_str());
 
-        out.precision(16);
+        out.precision(17);
 
         if (!out.good())
         {
@@ -636,9 +636,7 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         Logging::Get("proposal.interpolant")->error("Can not open file for writing");
         return 0;
     }
-    bool D2 = false;
-    if (function2d_ != NULL)
-        D2 = true;
+    bool D2 = !Interpolant_.empty();
 
     if (binary_tables)
     {
@@ -786,6 +784,13 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
     int romberg, rombergY;
     bool rational, rationalY, relative, relativeY, isLog, logSubst;
 
+    // what was in the table before
+    for (unsigned int i = 0; i < Interpolant_.size(); i++)
+    {
+        delete Interpolant_.at(i);
+    }
+    Interpolant_.clear();
+
     if (binary_tables)
     {
         in.read(reinterpret_cast<char*>(&D2), sizeof D2);
@@ -985,8 +990,8 @@ Interpolant::Interpolant(const Interpolant& interpolant)
         Interpolant_.at(i) = new Interpolant(*interpolant.Interpolant_.at(i));
     }
 
-    function1d_ = std::ref(interpolant.function1d_);
-    function2d_ = std::ref(interpolant.function2d_);
+    function1d_ = interpolant.function1d_;
+    function2d_ = interpolant.function2d_;
 }
 
 //----------------------------------------------------------------------------//
@@ -1606,6 +1611,9 @@ void Interpolant::swap(Interpolant& interpolant)
     d_.swap(interpolant.d_);
 
     Interpolant_.swap(interpolant.Interpolant_);
+
+    function1d_.swap(interpolant.function1d_);
+    function2d_.swap(interpolant.function2d_);
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From cd176380954ce776ce6a947350bf9e6d307964f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 26/79] fix: kinematic limits of the weak interaction are
 ordered at low energies

---
 .../PROPOSAL/crosssection/parametrization/WeakInteraction.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
index aa41e08..c8bfae0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 
 #include "PROPOSAL/Constants.h"
@@ -25,7 +26,8 @@ crosssection::KinematicLimits crosssection::WeakInteraction::GetKinematicLimits(
     double aux = (MP + MN) / 2; // for isoscalar targets
     aux = 2 * energy * aux + pow(aux, 2);
     auto kin_lim = KinematicLimits();
-    kin_lim.v_min = 1e6 / (aux); // q^2_min = 1e6 MeV for experimental reasons
+    // q^2_min = 1e6 MeV for experimental reasons
+    kin_lim.v_min = std::min(1e6 / (aux), 1.);
     kin_lim.v_max = 1.f;
     return kin_lim;
 }
-- 
2.43.0


From 3c4ccf42fe59dad045983cb64e400ee556b78d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 27/79] fix: the Bethe-Bloch-Rossi cross section is not
 negative at the upper kinematic limit

---
 .../PROPOSAL/crosssection/parametrization/Ionization.cxx       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
index 640f0ce..b1a0ce3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
@@ -103,7 +103,8 @@ double crosssection::IonizBetheBlochRossi::DifferentialCrossSection(
         * calculate_proton_massnumber_fraction(medium.GetComponents())
         / (2 * beta * energy * v * v);
 
-    return result * (1 + InelCorrection(p_def, medium, energy, v));
+    // the correction diverges to negative values at the upper kinematic limit
+    return std::max(result * (1 + InelCorrection(p_def, medium, energy, v)), 0.);
 }
 
 // ------------------------------------------------------------------------- //
-- 
2.43.0


From c6dbbf8fe51425c136fa82f20b2f34ffe7d227b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 28/79] fix: bremsstrahlung cross sections are not negative
 close to the upper kinematic limit

---
 .../crosssection/parametrization/Bremsstrahlung.cxx      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
index c308bf5..7830c31 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 #include <functional>
 #include <stdexcept>
@@ -99,7 +100,9 @@ double crosssection::Bremsstrahlung::DifferentialCrossSection(
     // \frac{m_e}{m_{particle}})^2$ is the typical Bremsstrahlung prefactor used
     // in every Parametrization
 
-    auto result = CalculateParametrization(p_def, comp, energy, v);
+    // some parametrizations get negative close to the upper kinematic limit
+    auto result
+        = std::max(CalculateParametrization(p_def, comp, energy, v), 0.);
 
     auto aux = 2 * p_def.charge * p_def.charge * (ME / p_def.mass) * RE
         * comp.GetNucCharge();
@@ -468,7 +471,9 @@ double crosssection::BremsElectronScreening::DifferentialCrossSection(
     const ParticleDef& p_def, const Component& comp, double energy,
     double v) const
 {
-    auto result = CalculateParametrization(p_def, comp, energy, v);
+    // some parametrizations get negative close to the upper kinematic limit
+    auto result
+        = std::max(CalculateParametrization(p_def, comp, energy, v), 0.);
 
     auto aux = p_def.charge * p_def.charge * (ME / p_def.mass) * RE;
     aux *= aux * (ALPHA / v) * result;
-- 
2.43.0


From 744af283840096f1313e3291d3f899e01ba65393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 29/79] fix: the Koch-Motz pair production cross section is not
 negative close to the kinematic limits above 50 MeV

---
 .../crosssection/parametrization/PhotoPairProduction.cxx     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 20a4073..62c1e8b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 
 #include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
@@ -115,7 +116,9 @@ double crosssection::PhotoPairKochMotz::DifferentialCrossSection(
         const ParticleDef& p, const Component& comp, double energy, double v) const
 {
     if (energy > 50)
-        return DifferentialCrossSectionWithoutA(p, comp, energy, v);
+        // negative close to the kinematic limits for heavy elements
+        return std::max(
+            DifferentialCrossSectionWithoutA(p, comp, energy, v), 0.);
 
     // Correction factor A for low energies given by the Storm and Israel data
     // (doi.org/10.1016/S0092-640X(70)80017-1)
-- 
2.43.0


From 85480a4bab1655dd2c96464ff28fde359a05b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 30/79] fix: a photonuclear interaction can not take away more
 than the kinetic energy

---
 .../PROPOSAL/crosssection/parametrization/Photonuclear.cxx   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
index 1cdca73..82082d7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 
 #include "PROPOSAL/Constants.h"
@@ -81,10 +82,10 @@ crosssection::KinematicLimits crosssection::Photonuclear::GetKinematicLimits(
         kin_lim.v_max
             -= comp.GetAverageNucleonWeight() * (1 + aux * aux) / (2 * energy);
     }
-    // vMax calculated above is always smaller than 1-m/E
+    // vMax calculated above for light particles is always smaller than 1-m/E
     // in comparison, the following inequality arise
     // (M-m)^2 >= 0
-    // limits.vMax = std::min(limits.vMax, 1 - p_def.mass/energy);
+    kin_lim.v_max = std::min(kin_lim.v_max, 1 - p_def.mass / energy);
     if (kin_lim.v_max < kin_lim.v_min)
         kin_lim.v_max = kin_lim.v_min;
     return kin_lim;
-- 
2.43.0


From 20ab21d7dd9fc49dc2773d47ba61b2d6c7532932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 31/79] fix: the real photon photonuclear cross section is not
 NaN where the photon cross section vanishes

---
 .../crosssection/parametrization/PhotoRealPhotonAssumption.cxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx
index cd5dc2a..0dc3777 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx
@@ -56,7 +56,7 @@ double crosssection::PhotoRealPhotonAssumption::DifferentialCrossSection(
     double kappa = 1 - 2 / v + 2 / (v * v);
 
     // calculate the shadowing factor
-    if (comp.GetNucCharge() == 1) {
+    if (comp.GetNucCharge() == 1 || sgn == 0.) {
         G = 1;
     } else {
         // eq. 18
-- 
2.43.0


From 2acefe598a39e6a343ba37e504d576d6eb4127c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 32/79] fix: muon pair production uses the atomic weight of the
 target, not its number in the molecule

---
 .../PROPOSAL/crosssection/parametrization/MupairProduction.cxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
index 57cacec..664a637 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
@@ -92,7 +92,7 @@ double crosssection::MupairKelnerKokoulinPetrukhin::FunctionToIntegral(
     double aux, aux1, aux2, r2, rMax, Z3, xi, beta, A_pow, r_mu;
     double phi, U, U_max, X, Y;
     double medium_charge = comp.GetNucCharge();
-    double atomic_weight = comp.GetAtomInMolecule();
+    double atomic_weight = comp.GetAtomicNum();
     // double medium_log_constant =
     // components_[component_index_]->GetLogConstant();
     double medium_log_constant = 183; // According to the paper, B is set to 183
-- 
2.43.0


From caa1b4f75f7ac095305338d86d5de7991427c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 33/79] fix: the photoelectric rate on a single target is zero
 below its threshold

---
 .../PROPOSAL/crosssection/parametrization/Photoeffect.cxx       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
index 8151cf8..abf57fd 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
@@ -45,6 +45,8 @@ double crosssection::Photoeffect::PhotonAtomCrossSection(double energy, const Co
 double crosssection::Photoeffect::CalculatedNdx(
         double energy, size_t comp_hash, const ParticleDef&, const Medium& m, cut_ptr) {
         auto comp = Component::GetComponentForHash(comp_hash);
+        if (energy <= GetCutOff(comp))
+            return 0.;
         auto weight = detail::weight_component(m, comp);
         return NA / comp.GetAtomicNum() * PhotonAtomCrossSection(energy, comp) / weight;
 }
-- 
2.43.0


From 5fb280517e98c423e56147c6c1f6d3f483eed7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 34/79] fix: muon pair production by other particles than muons
 uses their mass in the upper limit of the asymmetry

---
 .../PROPOSAL/crosssection/parametrization/MupairProduction.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
index 664a637..7e5c90a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
@@ -125,7 +125,8 @@ double crosssection::MupairKelnerKokoulinPetrukhin::FunctionToIntegral(
 
     U = aux / (1 + aux1 / aux2);
 
-    xi = v * v * (1 - rMax * rMax) / (4 * (1 - v));
+    aux1 = (p_def.mass * v) / (2 * MMU);
+    xi = aux1 * aux1 * (1 - rMax * rMax) / (1 - v);
     aux1 = 2 * SQRTE * std::pow(MMU, 2) * medium_log_constant * Z3 * (1 + xi)
            * (1 + Y);
     aux2 = ME * energy * v * (1 - rMax * rMax);
-- 
2.43.0


From c1d8e11d992377e69542af320f9f3f407a6f4cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 35/79] fix: the electron screening bremsstrahlung limits are
 not negative below the mass

---
 .../PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
index 7830c31..d8a91ca 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
@@ -88,7 +88,7 @@ crosssection::KinematicLimits crosssection::Bremsstrahlung::GetKinematicLimits(
     // Default kinematic limits, applicable to all parametrizations
     auto kin_lim = KinematicLimits();
     kin_lim.v_min = 0.;
-    kin_lim.v_max = 1 - p_def.mass / energy;
+    kin_lim.v_max = std::max(1 - p_def.mass / energy, 0.);
     return kin_lim;
 }
 
-- 
2.43.0


From 3b2384716312b84b693312d4b0c7e9db623bd1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:46 +0000
Subject: [PATCH 36/79] fix: Compton dE2dx integrates in ln(1-v) like dEdx

The plain integration misses the peak at v = 1 for high photon energies
(the squared loss exceeded the largest loss times the mean loss).
---
 .../CrossSectionDE2DXIntegral.h               |  5 ++++
 .../CrossSectionDE2DXIntegral.cxx             | 25 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h
index bae2b5b..af5b6d2 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h
@@ -8,6 +8,7 @@
 namespace PROPOSAL {
 namespace crosssection {
     template <typename T> class Parametrization;
+    struct ComptonKleinNishina;
 } // namespace crosssection
 struct ParticleDef;
 class Medium;
@@ -25,6 +26,10 @@ namespace detail {
     std::function<double(double)> define_de2dx_integral(
         crosssection::Parametrization<Component> const&, ParticleDef const&,
         Component const&, EnergyCutSettings const&);
+
+    std::function<double(double)> define_de2dx_integral(
+        crosssection::ComptonKleinNishina const&, ParticleDef const&,
+        Component const&, EnergyCutSettings const&);
 } // namespace detail
 } // namespace PROPOSAL
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx
index 2571b3b..b0e2ac1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx
@@ -1,11 +1,14 @@
 #include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h"
 #include "PROPOSAL/EnergyCutSettings.h"
+#include "PROPOSAL/crosssection/parametrization/Compton.h"
 #include "PROPOSAL/crosssection/parametrization/Parametrization.h"
 #include "PROPOSAL/math/Integral.h"
 #include "PROPOSAL/medium/Components.h"
 #include "PROPOSAL/medium/Medium.h"
 #include "PROPOSAL/particle/ParticleDef.h"
 
+#include <cmath>
+
 using namespace PROPOSAL;
 
 namespace PROPOSAL {
@@ -39,6 +42,28 @@ namespace detail {
     {
         return _define_de2dx_integral(param, p, c, cut);
     }
+
+    std::function<double(double)> define_de2dx_integral(
+        crosssection::ComptonKleinNishina const& param, ParticleDef const& p,
+        Component const& c, EnergyCutSettings const& cut)
+    {
+        using param_t = crosssection::Parametrization<Component>;
+        auto param_ptr = std::shared_ptr<param_t>(param.clone());
+        return [param_ptr, p, c, cut](double E) {
+            // Integrate with the substitution t = ln(1-v) to avoid
+            // numerical problems
+            auto i = Integral();
+            auto lim = param_ptr->GetKinematicLimits(p, c, E);
+            auto v_cut = cut.GetCut(lim, E);
+            double t_min = std::log(1. - v_cut);
+            double t_max = std::log(1. - lim.v_min);
+            auto dE2dx = [ptr = param_ptr.get(), &p, &c, E](double t) {
+                return std::exp(t)
+                    * ptr->FunctionToDE2dxIntegral(p, c, E, 1 - std::exp(t));
+            };
+            return i.Integrate(t_min, t_max, dE2dx, 2);
+        };
+    }
 } // namespace detail
 } // namespace PROPOSAL
 
-- 
2.43.0


From a89f125ca0e6f6e815a83f9087d842cf21113849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 37/79] fix: mean excitation energy enters Berger-Seltzer as
 (I/m)^2, not I^2/m

---
 .../PROPOSAL/crosssection/parametrization/Ionization.cxx      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
index b1a0ce3..4dace66 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
@@ -334,7 +334,7 @@ double crosssection::IonizBergerSeltzerBhabha::FunctionToDEdxIntegral(
     auto fplus = std::log(tau * bigDelta) - aux;
 
     auto result
-        = std::log(2. * (tau + 2.) / (std::pow(1e-6 * medium.GetI(), 2.) / ME));
+        = std::log(2. * (tau + 2.) / std::pow(1e-6 * medium.GetI() / ME, 2.));
     result += fplus;
     result -= Delta(medium, std::sqrt(betasquared), gamma);
 
@@ -456,7 +456,7 @@ double crosssection::IonizBergerSeltzerMoller::FunctionToDEdxIntegral(
         + tau / (tau - bigDelta);
 
     auto result
-        = std::log(2. * (tau + 2.) / (std::pow(1e-6 * medium.GetI(), 2.) / ME));
+        = std::log(2. * (tau + 2.) / std::pow(1e-6 * medium.GetI() / ME, 2.));
     result += fminus;
     result -= Delta(medium, std::sqrt(betasquared), gamma);
 
-- 
2.43.0


From f519e19b9902e79e2e55d96231d30bf0df93a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 38/79] fix: EpairForElectronPositron integrand takes 1 - rho
 as the other rho integrals

---
 .../PROPOSAL/crosssection/parametrization/EpairProduction.cxx    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
index a8fb16c..3bdff62 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
@@ -490,6 +490,7 @@ double crosssection::EpairForElectronPositron::FunctionToIntegral(
     // double medium_log_constant = 183; // According to the paper, B is set to
     // 183
 
+    rho = 1 - rho; // the integration variable is 1 - rho
     r2 = rho * rho;
     rMax = 1 - 2 * ME / (v * energy);
     Z3 = std::pow(medium_charge, -1. / 3);
-- 
2.43.0


From d7b40873304013f4b41563ea8dd3ad1858945658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 39/79] fix: screening variable of the elastic/inelastic form
 factors mixed in Tsai pair production (Li, Be)

---
 .../crosssection/parametrization/PhotoPairProduction.cxx      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 62c1e8b..24270a6 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -285,14 +285,14 @@ double crosssection::PhotoPairTsai::DifferentialCrossSection(
                     + std::log(std::pow(ap, 2.) * std::pow(Z, 4. / 3.)
                         * std::pow(ME, 2.)))
             - 2. * std::log(1 + std::pow(bp, 2.))
-            - 4. * bp * std::atan(1. / b); // (3.48)
+            - 4. * bp * std::atan(1. / bp); // (3.48)
         Psi2 = 2.
                 * (2. / 3.
                     + std::log(std::pow(ap, 2.) * std::pow(Z, 4. / 3.)
                         * std::pow(ME, 2.)))
             - 2. * std::log(1. + std::pow(bp, 2.))
             + 8. * std::pow(bp, 2.)
-                * (1. - b * std::atan(1. / bp)
+                * (1. - bp * std::atan(1. / bp)
                     - 0.75 * std::log(1 + std::pow(bp, -2.))); // (3.49)
     } else {
         // Heavier elements
-- 
2.43.0


From 4745f4be0c0dfe43ce6c004255862faeff56bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:37 +0000
Subject: [PATCH 40/79] fix: continuous Bethe-Bloch loss uses the cut within
 the kinematic limits, real photon formula log1p for small t

---
 .../PROPOSAL/crosssection/parametrization/Ionization.cxx       | 3 +--
 .../crosssection/parametrization/PhotoRealPhotonAssumption.cxx | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
index 4dace66..499a188 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
@@ -132,8 +132,7 @@ double crosssection::IonizBetheBlochRossi::IonizationLoss(
     double gamma = energy / p_def.mass;
     double v_up;
 
-    v_up = limits.v_max;
-    v_up = std::min(v_up, cuts_.GetCut(energy));
+    v_up = cuts_.GetCut(limits, energy);
 
     aux = beta * gamma / (1.e-6 * medium.GetI());
     result = std::log(v_up * (2 * ME * energy)) + 2 * std::log(aux);
diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx
index 0dc3777..4773be4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx
@@ -78,7 +78,7 @@ double crosssection::PhotoRealPhotonAssumption::DifferentialCrossSection(
             * ((kappa + 4 * aum / m1) * std::log(1 + m1 / t)
                 - (kappa * m1) / (m1 + t) - aux)
         + ((kappa + 2 * aum / m2) * std::log(1 + m2 / t) - aux)
-        + aux * (G * (m1 - 4 * t) / (m1 + t) + (m2 / t) * std::log(1 + t / m2));
+        + aux * (G * (m1 - 4 * t) / (m1 + t) + (m2 / t) * std::log1p(t / m2));
 
     aux *= ALPHA / (8 * PI) * comp.GetAtomicNum() * v * sgn * 1.e-30;
 
-- 
2.43.0


From 443d133b55699000579e7c3d23c1f0c9ca2a90e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 41/79] fix: Integral::GetUpperLimit returned the untransformed
 variable for nearly equal limits

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index f470aff..522c540 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -109,11 +109,12 @@ double Integral::GetUpperLimit()
     {
         if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
         {
-            return min_;
+            randomX_ = min_;
+        } else
+        {
+            RefineUpperLimit(savedResult_);
         }
 
-        RefineUpperLimit(savedResult_);
-
         if (reverse_)
         {
             randomX_ = reverseX_ - randomX_;
@@ -158,6 +159,8 @@ double Integral::IntegrateWithSubstitution(double min,
     {
         this->min_ = min;
         this->max_ = max;
+        useLog_    = false;
+        powerOfSubstitution_ = 0;
         randomDo_  = true;
         return 0;
     } else if (min > max)
@@ -259,6 +262,8 @@ double Integral::IntegrateWithLog(double min, double max, std::function<double(d
     {
         this->min_ = min;
         this->max_ = max;
+        useLog_    = false;
+        powerOfSubstitution_ = 0;
         randomDo_  = true;
 
         return 0;
-- 
2.43.0


From 376d87ddd452969d22d398a7e7a6873910c6f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 42/79] fix: particle hash ignored the hard component table,
 cached photonuclear tables were mixed up

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index 788a11a..cb210ba 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -250,6 +250,9 @@ bool ParticleDef::operator!=(const ParticleDef& def) const
 size_t ParticleDef::GetHash() const{
     size_t hash_digest = 0;
     hash_combine(hash_digest, mass, low, lifetime, charge, weak_partner);
+    for (auto const& row : hard_component_table)
+        for (auto value : row)
+            hash_combine(hash_digest, value);
     return hash_digest;
 }
 
-- 
2.43.0


From 37ac45f4eb5bfb5dbb3e49fc2e8572e8125d6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 43/79] fix: SampleLoss threw for random numbers close to one
 due to rounding

---
 .../PROPOSAL/propagation_utility/Interaction.cxx    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
index 2eb8352..fe15437 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
@@ -2,6 +2,7 @@
 #include "PROPOSAL/crosssection/CrossSection.h"
 #include "PROPOSAL/propagation_utility/Displacement.h"
 
+#include <limits>
 #include <sstream>
 #include <numeric>
 
@@ -38,7 +39,10 @@ Interaction::Loss Interaction::SampleLoss(
     auto overall_rate = std::accumulate(rates.begin(), rates.end(), 0.,
         [](double a, Rate r) { return a + r.rate; });
     auto sampled_rate = rnd * overall_rate;
+    Rate const* last_possible = nullptr;
     for (auto& r : rates) {
+        if (r.rate > 0.)
+            last_possible = &r;
         sampled_rate -= r.rate;
         if (sampled_rate < 0.) {
             auto loss = r.crosssection->CalculateStochasticLoss(
@@ -54,6 +58,15 @@ Interaction::Loss Interaction::SampleLoss(
         return {InteractionType::Undefined, 0, 0};
     }
 
+    // rounding errors may leave a remainder for random numbers close to one
+    if (rnd < 1. && last_possible) {
+        auto rate = last_possible->rate * std::numeric_limits<double>::epsilon();
+        auto loss = last_possible->crosssection->CalculateStochasticLoss(
+            last_possible->comp_hash, energy, rate);
+        return { last_possible->crosssection->GetInteractionType(),
+            last_possible->comp_hash, loss };
+    }
+
     std::stringstream ss;
     ss << "Given rate (" << std::to_string(sampled_rate)
        << ") for given energy (" << std::to_string(energy)
-- 
2.43.0


From 465b75df237e93d29733f61000a37a17a48cdbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 44/79] fix: SampleFromGaussian left the allowed interval for
 limits that are not resolved by the error function

---
 src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
index 46208bb..07956f3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 #include <utility>
 #include <fstream>
@@ -409,7 +410,13 @@ double SampleFromGaussian(double mean, double sigma, double rnd, double min, dou
     auto xlo = 0.5 + std::erf((min - mean) / (SQRT2 * sigma)) / 2;
     auto xhi = 0.5 + std::erf((max - mean) / (SQRT2 * sigma)) / 2;
     auto rndtmp = xlo + (xhi - xlo) * rnd;
-    return sigma * normalppf(rndtmp)  + mean;
+    // the limits may be too far away to be resolved by the cumulative
+    // distribution function, do not leave the allowed interval in this case
+    if (rndtmp <= 0)
+        return min;
+    if (rndtmp >= 1)
+        return max;
+    return std::max(min, std::min(max, sigma * normalppf(rndtmp) + mean));
 }
 
 double SampleFromExponential(double p, double lambda) {
-- 
2.43.0


From 17a2397adf218188d46fc2cdfeeaa40d92e5b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:18 +0000
Subject: [PATCH 45/79] fix: comparing Highland scattering with another type
 dereferenced a null pointer

---
 .../detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
index 8d3fdfb..5ed6d64 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
@@ -32,6 +32,8 @@ Highland::Highland(const ParticleDef& particle_def, Medium const& medium)
 bool Highland::compare(const Parametrization& scattering) const
 {
     auto sc = dynamic_cast<const Highland*>(&scattering);
+    if (!sc)
+        return false;
 
     if (radiation_length != sc->radiation_length)
         return false;
-- 
2.43.0


From 62ab4cba0aac89d510a6866591ab33d6a8e96583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:54 +0000
Subject: [PATCH 46/79] fix: copies of HighlandIntegral used the destroyed
 original

---
 .../scattering/multiple_scattering/HighlandIntegral.h      | 2 +-
 .../scattering/multiple_scattering/HighlandIntegral.cxx    | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
index 4224f35..d5e579c 100644
--- a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
+++ b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
@@ -41,7 +41,7 @@ namespace multiple_scattering {
     class HighlandIntegral : public Highland {
         std::shared_ptr<UtilityIntegral> highland_integral;
 
-        inline double Integral(Displacement&, double);
+        static double Integral(Displacement&, double energy, double mass);
 
     public:
         HighlandIntegral(const ParticleDef& p, Medium const& m,
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
index bd7e34c..29511bb 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
@@ -17,7 +17,8 @@ double HighlandIntegral::CalculateTheta0(double grammage, double ei, double ef)
     return std::min(aux, 1.0);
 }
 
-double HighlandIntegral::Integral(Displacement& disp, double energy)
+double HighlandIntegral::Integral(
+        Displacement& disp, double energy, double mass)
 {
     auto square_momentum = (energy - mass) * (energy + mass);
     auto aux = energy / square_momentum;
@@ -28,14 +29,14 @@ HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::false_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityIntegral>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [disp, mass = p.mass](double E) { return Integral(*disp, E, mass); },
                 disp->GetLowerLim(), disp->GetHash())) {};
 
 HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::true_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityInterpolant>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [disp, mass = p.mass](double E) { return Integral(*disp, E, mass); },
                 disp->GetLowerLim(), disp->GetHash())) {
         highland_integral->BuildTables("scattering_", 500, true);
 };
-- 
2.43.0


From 1aaaedbc06b1252b40468d31df93be088f957a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:54 +0000
Subject: [PATCH 47/79] fix: multiple scattering returned directions which are
 not normalized for large offsets

---
 .../scattering/multiple_scattering/Parametrization.cxx      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
index cd2e7fe..24ed116 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
@@ -65,6 +65,12 @@ namespace PROPOSAL {
             final_direction += tx * rotate_vector_x;
             final_direction += ty * rotate_vector_y;
 
+            // offsets larger than one can not be complemented to a unit vector
+            if (sx * sx + sy * sy > 1.)
+                mean_direction.normalize();
+            if (tx * tx + ty * ty > 1.)
+                final_direction.normalize();
+
             return std::make_pair(mean_direction, final_direction);
         }
     }
-- 
2.43.0


From aa5fb88a239ef899a9d83b869aeca05919e46777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:54 +0000
Subject: [PATCH 48/79] fix: building dE2dx tables failed if the first node is
 already positive

---
 .../crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
index 1c5f50e..bd17131 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
@@ -18,6 +18,9 @@ void AxisBuilderDE2DX::refine_definition_range(
         ++i;
     if (i == n)
         throw std::logic_error("No positive values to build dE2dx tables!");
+
+    if (i == 0)
+        return;
     low = ax.back_transform(i);
 
     double i_accuracy = 0.5;
-- 
2.43.0


From a7b67a07e4ad692e9582461d5f9300113b39fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:22 +0000
Subject: [PATCH 49/79] fix: cross sections without continuous losses could not
 be interpolated, dE2dx tables are skipped like dEdx tables

---
 .../PROPOSAL/crosssection/CrossSection.h       | 18 +++++++++++-------
 .../CrossSectionDE2DX/AxisBuilderDE2DX.h       |  9 +++++++++
 .../CrossSectionDE2DXBuilder.h                 |  9 +++++++--
 .../CrossSectionDE2DX/AxisBuilderDE2DX.cxx     |  2 +-
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
index 6ab98eb..b11afdd 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
@@ -159,10 +159,13 @@ namespace detail {
     inline auto _build_de2dx(Cont container, std::true_type, bool interpol,
         T1&& param, T2&& p_def, T3 const& target, Args&&... args)
     {
-        for (auto& c : target.GetComponents())
-            container->emplace_back(weight_component(target, c),
-                make_de2dx(interpol, std::forward<T1>(param),
-                    std::forward<T2>(p_def), c, args...));
+        for (auto& c : target.GetComponents()) {
+            auto weight_comp = weight_component(target, c);
+            auto de2dx = make_de2dx(interpol, std::forward<T1>(param),
+                std::forward<T2>(p_def), c, args...);
+            if (de2dx)
+                container->emplace_back(weight_comp, std::move(de2dx));
+        }
     }
 
     template <typename Cont, typename T1, typename T2, typename T3,
@@ -170,9 +173,10 @@ namespace detail {
     inline auto _build_de2dx(Cont container, std::false_type, bool interpol,
         T1&& param, T2&& p_def, T3 const& target, Args&&... args)
     {
-        container->emplace_back(1.,
-            make_de2dx(interpol, std::forward<T1>(param),
-                std::forward<T2>(p_def), target, args...));
+        auto de2dx = make_de2dx(interpol, std::forward<T1>(param),
+            std::forward<T2>(p_def), target, args...);
+        if (de2dx)
+            container->emplace_back(1., std::move(de2dx));
     }
 
     template <typename Type, typename T1, typename T2, typename T3, typename T4,
diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h
index 63c1a27..754117b 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h
@@ -3,6 +3,8 @@
 #include "CubicInterpolation/Axis.h"
 #include "PROPOSAL/Constants.h"
 #include <functional>
+#include <memory>
+#include <stdexcept>
 
 namespace PROPOSAL {
     class AxisBuilderDE2DX {
@@ -18,4 +20,11 @@ namespace PROPOSAL {
 
         std::unique_ptr<cubic_splines::ExpAxis<double>> Create() const;
     };
+
+    struct exception_axis_builder_de2dx_out_of_range : public std::logic_error {
+        exception_axis_builder_de2dx_out_of_range()
+            : std::logic_error("No positive values to build dE2dx tables!")
+        {
+        }
+    };
 } // namespace PROPOSAL
diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h
index c367ee1..f29d90c 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h
@@ -1,6 +1,7 @@
 #pragma once
 #include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h"
 #include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXInterpolant.h"
+#include "PROPOSAL/Logging.h"
 
 namespace PROPOSAL {
 
@@ -8,8 +9,12 @@ template <typename... Args> auto make_de2dx(bool interpolate, Args&&... args)
 {
     auto ptr = std::unique_ptr<CrossSectionDE2DX>();
     if (interpolate)
-        ptr = std::make_unique<CrossSectionDE2DXInterpolant>(
-            std::forward<Args>(args)...);
+        try {
+            ptr = std::make_unique<CrossSectionDE2DXInterpolant>(
+                std::forward<Args>(args)...);
+        } catch (exception_axis_builder_de2dx_out_of_range const& e) {
+            Logging::Get("CrossSection.DE2DX")->debug(e.what());
+        }
     else
         ptr = std::make_unique<CrossSectionDE2DXIntegral>(
             std::forward<Args>(args)...);
diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
index bd17131..d21b283 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
@@ -17,7 +17,7 @@ void AxisBuilderDE2DX::refine_definition_range(
     while (!(func(ax.back_transform(i)) > 0) && i < n)
         ++i;
     if (i == n)
-        throw std::logic_error("No positive values to build dE2dx tables!");
+        throw exception_axis_builder_de2dx_out_of_range();
 
     if (i == 0)
         return;
-- 
2.43.0


From b0dc4ae656c898ba335823bfb0282435503a9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:22 +0000
Subject: [PATCH 50/79] fix: interpolated utilities could not be inverted close
 to their lower limit

---
 .../propagation_utility/PropagationUtilityInterpolant.cxx   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx
index 6ea0017..5b08425 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx
@@ -67,7 +67,7 @@ double UtilityInterpolant::Calculate(double energy_initial, double energy_final)
     assert(energy_final >= lower_lim);
 
     if (energy_initial - energy_final < energy_initial * IPREC)
-        return FunctionToIntegral((energy_initial + energy_initial) / 2)
+        return FunctionToIntegral((energy_initial + energy_final) / 2)
             * (energy_final - energy_initial);
 
     auto integral_upper_limit = interpolant_->evaluate(energy_initial);
@@ -92,6 +92,10 @@ double UtilityInterpolant::GetUpperLimit(double upper_limit, double rnd)
     if (rnd == max_rnd)
         return lower_lim;
 
+    // the tables can not resolve such a small range, see Calculate
+    if (upper_limit - lower_lim < upper_limit * IPREC)
+        return upper_limit - rnd / max_rnd * (upper_limit - lower_lim);
+
     if (reverse_)
         rnd = -rnd;
 
-- 
2.43.0


From 0f6dc82790848d80d52a9cafb8856f209d1b0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 51/79] fix: Moliere scattering where the model does not apply
 could return arbitrary angles

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.cxx     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index 0f5c471..7f2527a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -43,6 +43,12 @@ double Moliere::GetPrefactor(double ei, double grammage) {
     for (int i = 0; i < numComp_; i++) {
         // calculate B-ln(B) = ln(chi_c^2/chi_a^2)+1-2*EULER_MASCHERONI via
         // Newton-Raphson method
+        // The method does not converge for B < 4.5, where it is practical to
+        // assume no deviation.
+        auto b = std::log(chiCSq_ / chi_A_Sq[i]) + 1. - 2. * EULER_MASCHERONI;
+        if (!(b >= 4.5 - std::log(4.5)))
+            return 0;
+
         double xn = 15.;
 
         for (int n = 0; n < 6; n++) {
-- 
2.43.0


From 9603da06a0d8856204176638b932c9e47ce01afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:31 +0000
Subject: [PATCH 52/79] fix: cross sections without stochastic losses could not
 be interpolated

---
 .../crosssection/CrossSectionDNDX/AxisBuilderDNDX.h   |  8 ++++++++
 .../CrossSectionDNDX/CrossSectionDNDXBuilder.h        | 11 ++++++++---
 .../crosssection/CrossSectionDNDX/AxisBuilderDNDX.cxx |  2 +-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDNDX/AxisBuilderDNDX.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDNDX/AxisBuilderDNDX.h
index 0acf00d..a19284a 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDNDX/AxisBuilderDNDX.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDNDX/AxisBuilderDNDX.h
@@ -5,6 +5,7 @@
 #include <array>
 #include <functional>
 #include <spdlog/fwd.h>
+#include <stdexcept>
 
 class AxisBuilderDNDX {
     using axis_t = cubic_splines::Axis<double>;
@@ -31,3 +32,10 @@ public:
     static std::unique_ptr<axis_t> Create(energy_limits energy_lim);
 
 };
+
+struct exception_axis_builder_dndx_out_of_range : public std::logic_error {
+    exception_axis_builder_dndx_out_of_range()
+        : std::logic_error("No positive values to build dNdx tables!")
+    {
+    }
+};
diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXBuilder.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXBuilder.h
index d02361f..3a4df42 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXBuilder.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXBuilder.h
@@ -1,6 +1,7 @@
 #pragma once
 #include "PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.h"
 #include "PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXInterpolant.h"
+#include "PROPOSAL/Logging.h"
 
 namespace PROPOSAL {
 
@@ -11,9 +12,13 @@ template <typename... Args> auto make_dndx(bool interpolate, Args&&... args)
 {
     auto dndx = std::unique_ptr<CrossSectionDNDX>();
     if (interpolate)
-        dndx = std::make_unique<CrossSectionDNDXInterpolant>(
-            std::forward<Args>(args)...);
-    else
+        try {
+            dndx = std::make_unique<CrossSectionDNDXInterpolant>(
+                std::forward<Args>(args)...);
+        } catch (exception_axis_builder_dndx_out_of_range const& e) {
+            Logging::Get("CrossSection.DNDX")->debug(e.what());
+        }
+    if (!dndx) // the integral is used if there is nothing to interpolate
         dndx = std::make_unique<CrossSectionDNDXIntegral>(
             std::forward<Args>(args)...);
     return dndx;
diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDNDX/AxisBuilderDNDX.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDNDX/AxisBuilderDNDX.cxx
index 3371050..b24c7f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDNDX/AxisBuilderDNDX.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDNDX/AxisBuilderDNDX.cxx
@@ -11,7 +11,7 @@ AxisBuilderDNDX::energy_limits AxisBuilderDNDX::refine_definition_range(energy_l
     while (!(func(ax.back_transform(i)) > 0) && i < limits.nodes)
         ++i;
     if (i == limits.nodes)
-        throw std::logic_error("No positive values to build dNdx tables!");
+        throw exception_axis_builder_dndx_out_of_range();
 
     if (i == 0)
         limits.low = ax.back_transform(0);
-- 
2.43.0


From 4f09c3d4f88c46644250e1929bc74ab6fc6638cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:33 +0000
Subject: [PATCH 53/79] fix: ionization deflection was NaN for small angles at
 high energies

---
 .../stochastic_deflection/ionization/IonizNaive.cxx    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
index 7343b7e..25e9ab0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
@@ -1,5 +1,6 @@
 #include "PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.h"
 #include "PROPOSAL/Constants.h"
+#include <algorithm>
 #include <cmath>
 using namespace PROPOSAL;
 
@@ -9,7 +10,12 @@ stochastic_deflection::IonizNaive::CalculateStochasticDeflection(
 {
     auto p_i = std::sqrt((e_i + mass) * (e_i - mass));
     auto p_f = std::sqrt((e_f + mass) * (e_f - mass));
-    auto costheta = ((e_i + ME) * e_f - e_i * ME - mass * mass) / (p_i * p_f);
+    // sin^2(theta / 2) instead of cos(theta), which is rounded for small angles
+    auto loss = e_i - e_f;
+    auto sin2 = loss
+        * (ME - mass * mass * loss / (p_i * p_f + e_i * e_f - mass * mass))
+        / (2 * p_i * p_f);
+    sin2 = std::min(std::max(sin2, 0.), 1.);
 
-    return UnitSphericalVector { std::acos(costheta), 2 * PI * rnd[0] };
+    return UnitSphericalVector { 2 * std::asin(std::sqrt(sin2)), 2 * PI * rnd[0] };
 }
\ No newline at end of file
-- 
2.43.0


From 7b49e17c0c23f65fce48b1968e2a353cf679d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:33 +0000
Subject: [PATCH 54/79] fix: photonuclear deflection was NaN at the limits of
 the momentum transfer

---
 .../stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
index dfcde07..2ca2780 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
@@ -1,5 +1,6 @@
 #include "PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.h"
 #include "PROPOSAL/Constants.h"
+#include <algorithm>
 #include <cmath>
 
 using namespace PROPOSAL;
@@ -16,6 +17,7 @@ stochastic_deflection::PhotoBorogPetrukhin::CalculateStochasticDeflection(
     auto t_1 = std::min(epsilon * epsilon, m_0 * m_0);
     auto t_p = (t_max * t_1) / ((t_max + t_1) * pow(((t_max * (t_min + t_1)) / (t_min * (t_max + t_1))), rnd[0]) - t_max); 
     auto sin2 = (t_p - t_min) / (4 * (e_i * e_f - mass * mass) - 2 * t_min);
+    sin2 = std::min(std::max(sin2, 0.), 1.); // exceeded due to rounding
     auto theta_muon = 2 * std::asin(std::sqrt(sin2));
 
     return UnitSphericalVector { theta_muon, 2 * PI * rnd[1] };
-- 
2.43.0


From bbdabe50360542481b92315dab1c0ddac4870d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:52 +0000
Subject: [PATCH 55/79] fix: BremsGinneken deflection threw for catastrophic
 losses at high energies

---
 .../bremsstrahlung/BremsGinneken.cxx               | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
index afc7baa..4d6211d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
@@ -21,8 +21,11 @@ double stochastic_deflection::BremsGinneken::get_nu_g(double n, double k_4) cons
     };
     if (f(0.5) * f(1.) < 0) { 
         // check different sign of the definition range, not possible for e_i < 0.7 GeV
-        auto nu_g_x = Bisection(f, 0.5, 1., 1e-5, 100);
-        return (nu_g_x.first + nu_g_x.second) / 2;
+        // nu_g is close to one for high energies, solve for log(1 - nu_g)
+        auto g = [&f](double log_x) { return f(-std::expm1(log_x)); };
+        auto log_min = (log(k_4 / 0.2) + (1 + n) * log(0.5)) / n;
+        auto log_x = Bisection(g, log_min, log(0.5), 1e-5, 100);
+        return -std::expm1((log_x.first + log_x.second) / 2);
     } 
     return 0.5; // return boundary value of parametrization
 }
@@ -47,11 +50,8 @@ double stochastic_deflection::BremsGinneken::get_rms_theta(double e_i, double e_
             double nu_g = get_nu_g(n, k_4);
             auto k_5 = k_4 * pow(nu_g, 1 + n) * pow(1 - nu_g, 0.5 - n);
             rms_theta = k_5 * pow(1 - nu, -0.5);
-            if (rms_theta < 0.2) {
-                // This case is an undefined state
-                throw std::invalid_argument("BremsGinneken deflection rms_theta = " + to_string(rms_theta) + " < 0.2 is not defined in this case");
-            }
-            return rms_theta;
+            // both branches are equal to 0.2 for nu_g
+            return max(rms_theta, 0.2);
         }
     }
 }
-- 
2.43.0


From 5e0d3931f7d6bf2e60bc02d85a0c23f62d4f842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 56/79] fix: photon energies in annihilation were sampled with
 too low precision at high energies

---
 .../parametrization/annihilation/HeitlerAnnihilation.cxx        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
index 6b86611..2a70fa6 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
@@ -30,7 +30,7 @@ double secondaries::HeitlerAnnihilation::CalculateRho(double energy, double rnd,
     double a1 = 1 + 2 * gamma * a2;
 
     auto function_to_solve = [&](double rho) { return f(rho, a1, a2, rho_min, rho_max, rnd); };
-    double precision = rho_min * energy * HALF_PRECISION;
+    double precision = rho_min * HALF_PRECISION;
     return Bisection(function_to_solve, rho_min, rho_max, precision, 100).first;
 }
 
-- 
2.43.0


From 8b1c4e481bb1c4691cb3e0890487071e2c7378d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 57/79] fix: muon pair energies were NaN at the threshold

---
 .../KelnerKokoulinPetrukhinMupairProduction.cxx             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx
index e9ef5d5..0e5a2c3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx
@@ -23,12 +23,14 @@ double secondaries::KelnerKokoulinPetrukhinMupairProduction::CalculateRho(
     auto rho_max = 1 - 2 * MMU / (v * energy);
     if (rho_max < 0)
         return 0;
-    integral.IntegrateWithRandomRatio(0, rho_max,
+    auto integral_value = integral.IntegrateWithRandomRatio(0, rho_max,
         [&](double rho) {
             return param.FunctionToIntegral(p_def, comp, energy, v, rho);
         },
         3, rnd1);
-    auto rho_tmp = integral.GetUpperLimit();
+    auto rho_tmp = 0.;
+    if (integral_value > 0)
+        rho_tmp = integral.GetUpperLimit();
     if (rnd2 < 0.5) {
         return -rho_tmp;
     } else {
-- 
2.43.0


From 8f6a1d3abaccd3cf0b03b04dafe72cec7ad8029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 58/79] fix: secondaries of epair production threw at the
 kinematic limits

---
 .../KelnerKokoulinPetrukhinEpairProduction.h                | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h b/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
index f449edb..346b7ca 100644
--- a/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
+++ b/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
@@ -44,6 +44,12 @@ namespace secondaries {
             auto aux = 1 - (4 * ME) / (energy * v);
             auto aux2 = 1 - (6 * p_def.mass * p_def.mass) / (energy * energy * (1 - v));
 
+            // rounding at the limits of the kinematic range
+            if (aux < 0 && aux > -COMPUTER_PRECISION)
+                aux = 0.;
+            if (aux2 < 0 && aux2 > -COMPUTER_PRECISION)
+                aux2 = 0.;
+
             double rho_max = std::sqrt(aux) * aux2;
 
             if (rho_max < 0) {
-- 
2.43.0


From 240b64cc68cf72c1481e686fcb0f3dcc84fd10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 59/79] fix: angle of the positron in pair production was
 sampled with the energy of the electron

---
 .../photopairproduction/PhotoPairProductionTsai.cxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.cxx
index 00feb9c..ff41830 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.cxx
@@ -100,16 +100,19 @@ secondaries::PhotoPairProductionTsai::CalculateDirections(
         double rnd1, double rnd2, double rnd3)
 {
     auto subst = std::max(1., std::log10(energy));
-    auto integrand_substitution = [&, energy, rho, comp](double t) {
-        return subst * std::pow(t, subst - 1.)
-        * FunctionToIntegral(energy, rho, std::pow(t, subst), comp);
+    // x is the energy fraction of the particle whose angle is sampled
+    auto integrand_substitution = [&, energy, comp](double x) {
+        return [&, energy, comp, x](double t) {
+            return subst * std::pow(t, subst - 1.)
+            * FunctionToIntegral(energy, x, std::pow(t, subst), comp);
+        };
     };
     auto t_max = std::pow(PI, 1. / subst);
     integral.IntegrateWithRandomRatio(
-            0., t_max, integrand_substitution, 3, rnd1);
+            0., t_max, integrand_substitution(rho), 3, rnd1);
     auto cosphi0 = std::cos(std::pow(integral.GetUpperLimit(), subst));
     integral.IntegrateWithRandomRatio(
-            0., t_max, integrand_substitution, 3, rnd2);
+            0., t_max, integrand_substitution(1. - rho), 3, rnd2);
     auto cosphi1 = std::cos(std::pow(integral.GetUpperLimit(), subst));
     auto theta0 = rnd3 * 2. * PI;
     auto theta1 = std::fmod(theta0 + PI, 2. * PI);
-- 
2.43.0


From 5067a3762e0ecdc68ff1dd960e498c08c5d6a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 60/79] fix: photo muon pair production created muons with less
 energy than their mass

---
 .../crosssection/parametrization/PhotoMuPairProduction.cxx     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.cxx
index b0d072d..cdf01bc 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.cxx
@@ -25,6 +25,9 @@ crosssection::KinematicLimits crosssection::PhotoMuPairProduction::GetKinematicL
     } else {
         lim.v_min = 0.5 * (1. - std::sqrt(1. - 2 * SQRTE * MMU / energy));
         lim.v_max = 0.5 * (1. + std::sqrt(1. - 2 * SQRTE * MMU / energy));
+        // both muons have at least the energy of their mass
+        lim.v_min = std::max(lim.v_min, MMU / energy);
+        lim.v_max = std::min(lim.v_max, 1. - MMU / energy);
     }
     return lim;
 }
-- 
2.43.0


From 4a0ae2fa3bf64d372b5c76a8bf05b3e52b3be1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:15 +0000
Subject: [PATCH 61/79] fix: particles starting below the energy limit or
 beyond the distance limit were propagated backwards

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index e6f88c2..56951c3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -77,6 +77,12 @@ Secondaries Propagator::Propagate(const ParticleState& initial_particle,
 
         InteractionEnergy[MinimalE] = std::max(
                 min_energy, utility.collection.displacement_calc->GetLowerLim());
+
+        // There is no step towards a limit that has been passed already
+        if (state.energy < InteractionEnergy[MinimalE]
+            || state.propagated_distance > max_distance)
+            break;
+
         InteractionEnergy[Decay] = utility.EnergyDecay(
             state.energy, rnd, density->Evaluate(state.position));
         InteractionEnergy[Stochastic]
-- 
2.43.0


From 3f1b4643551508884a6270b2f2b01d9ce0c203a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:15 +0000
Subject: [PATCH 62/79] fix: elapsed time in inhomogeneous media used the
 density at the start of the step

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 56951c3..1c6d175 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -296,7 +296,11 @@ int Propagator::AdvanceParticle(ParticleState &state,
         }
     } while (advancement_type == InvalidStep);
 
-    state.time = state.time + utility.TimeElapsed(state.energy, energy, grammage, density->Evaluate(state.position)); // TODO: should the energy passed here be the randomized energy or not?
+    // the density may change along the step, its mean value relates the
+    // grammage to the distance
+    auto mean_density = (distance > 0 && grammage > 0)
+            ? grammage / distance : density->Evaluate(state.position);
+    state.time = state.time + utility.TimeElapsed(state.energy, energy, grammage, mean_density); // TODO: should the energy passed here be the randomized energy or not?
     state.position = state.position + distance * mean_direction;
     state.direction = new_direction;
     state.propagated_distance = state.propagated_distance + distance;
-- 
2.43.0


From a19a14a57ffbf754713cbedf4a2c4eb81c91905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:15 +0000
Subject: [PATCH 63/79] fix: particles scattered into a sector of higher
 hierarchy kept the medium of the old sector

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 1c6d175..b53b461 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -240,6 +240,13 @@ int Propagator::AdvanceParticle(ParticleState &state,
         // Check step
         double distance_to_border = CalculateDistanceToBorder(state.position, mean_direction, *geometry);
         bool is_inside = geometry->IsInside(state.position, mean_direction);
+        for (auto& sector : sector_list) {
+            // on its border, we might scatter into a sector of higher hierarchy
+            auto& other = get<GEOMETRY>(sector);
+            if (other->GetHierarchy() > geometry->GetHierarchy()
+                && other->IsInside(state.position, mean_direction))
+                is_inside = false;
+        }
 
         if (num_steps > PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS) {
             // too many iteration steps!
@@ -256,7 +263,7 @@ int Propagator::AdvanceParticle(ParticleState &state,
             energy = utility.EnergyDistance(state.energy, grammage);
             advancement_type = ReachedBorder;
         } else if (!is_inside) {
-            // Special case: We are on the sector border, but scattering back outside the current sector!
+            // Special case: We are on a sector border, but scattering into a different sector!
             // Update sector and recalculate values
             advancement_type = InvalidStep;
             auto new_sector = GetCurrentSector(state.position, mean_direction);
-- 
2.43.0


From 70fc99b8c932c93e8831f2febaf2c9a7e30fe8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:15 +0000
Subject: [PATCH 64/79] fix: endless propagation loop at borders far away from
 the origin

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index b53b461..f550745 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -293,7 +293,11 @@ int Propagator::AdvanceParticle(ParticleState &state,
         } else if (std::abs(distance - distance_to_border) <= PARTICLE_POSITION_RESOLUTION) {
             // reached geometry border
             advancement_type = ReachedBorder;
-            distance = distance_to_border;
+            // the position is stored with limited precision: if the step is too
+            // short to change it, the border will never be crossed
+            auto min_step = std::min(COMPUTER_PRECISION * state.position.magnitude(),
+                                     PARTICLE_POSITION_RESOLUTION);
+            distance = std::max(distance_to_border, min_step);
         } else {
             // iteration not finished! discard energy and grammage
             advancement_type = InvalidStep;
-- 
2.43.0


From 488b648fc0162c47eda9e51a5a846a4245d58bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:15 +0000
Subject: [PATCH 65/79] fix: crash when the particle is outside of all sectors

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index f550745..0dc2f6d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -370,6 +370,8 @@ Sector Propagator::GetCurrentSector(
                                                       spherical_position.GetX(),
                                                       spherical_position.GetY(),
                                                       spherical_position.GetZ());
+        throw std::logic_error(
+                "Propagator: No sector defined at current particle position.");
     }
     auto highest_sector_iter = std::max_element(
         potential_sec.begin(), potential_sec.end(), [](Sector* a, Sector* b) {
-- 
2.43.0


From 2e551a66a6e1d831af86d1359016ad297654cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:16 +0000
Subject: [PATCH 66/79] fix: continuous randomization reused the random number
 of the scattering angle

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 0dc2f6d..5d0d52d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -318,7 +318,8 @@ int Propagator::AdvanceParticle(ParticleState &state,
     if (min_energy_step && advancement_type == ReachedInteraction)
         state.energy = energy; // we reached a specific energy, no randomization
     else
-        state.energy = utility.EnergyRandomize(state.energy, energy, rnd, min_energy);
+        // the random numbers in `rnd` have been used to sample the scattering
+        state.energy = utility.EnergyRandomize(state.energy, energy, rnd_generator, min_energy);
 
     return advancement_type;
 }
-- 
2.43.0


From 04583106bb9134131d95fd5075f6a1925dba5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:14 +0000
Subject: [PATCH 67/79] fix: sectors of equal hierarchy: the sector defined
 first takes precedence

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 24 ++++++++++-----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 5d0d52d..a84a51b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -239,14 +239,8 @@ int Propagator::AdvanceParticle(ParticleState &state,
 
         // Check step
         double distance_to_border = CalculateDistanceToBorder(state.position, mean_direction, *geometry);
-        bool is_inside = geometry->IsInside(state.position, mean_direction);
-        for (auto& sector : sector_list) {
-            // on its border, we might scatter into a sector of higher hierarchy
-            auto& other = get<GEOMETRY>(sector);
-            if (other->GetHierarchy() > geometry->GetHierarchy()
-                && other->IsInside(state.position, mean_direction))
-                is_inside = false;
-        }
+        auto sector_of_step = GetCurrentSector(state.position, mean_direction);
+        bool is_inside = get<GEOMETRY>(sector_of_step) == geometry;
 
         if (num_steps > PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS) {
             // too many iteration steps!
@@ -266,10 +260,9 @@ int Propagator::AdvanceParticle(ParticleState &state,
             // Special case: We are on a sector border, but scattering into a different sector!
             // Update sector and recalculate values
             advancement_type = InvalidStep;
-            auto new_sector = GetCurrentSector(state.position, mean_direction);
-            utility = get<UTILITY>(new_sector);
-            density = get<DENSITY_DISTR>(new_sector);
-            geometry = get<GEOMETRY>(new_sector);
+            utility = get<UTILITY>(sector_of_step);
+            density = get<DENSITY_DISTR>(sector_of_step);
+            geometry = get<GEOMETRY>(sector_of_step);
             grammage_next_interaction = utility.LengthContinuous(state.energy, energy_next_interaction);
             energy = energy_next_interaction;
             distance = -1;
@@ -330,9 +323,14 @@ double Propagator::CalculateDistanceToBorder(const Vector3D& position,
     auto distance_border
         = current_geometry.DistanceToBorder(position, direction).first;
     double tmp_distance;
+    bool defined_earlier = true; // than the current sector
     for (auto& sector : sector_list) {
         auto& geometry = get<GEOMETRY>(sector);
-        if (geometry->GetHierarchy() > current_geometry.GetHierarchy()) {
+        if (geometry.get() == &current_geometry)
+            defined_earlier = false;
+        if (geometry->GetHierarchy() > current_geometry.GetHierarchy()
+            || (defined_earlier
+                && geometry->GetHierarchy() == current_geometry.GetHierarchy())) {
             tmp_distance
                 = geometry->DistanceToBorder(position, direction).first;
             if (tmp_distance >= 0)
-- 
2.43.0


From 000effdcde4a8d145c3a99d8dead8d0de4927822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:14 +0000
Subject: [PATCH 68/79] fix: maximal distance was exceeded when it coincides
 with a border

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index a84a51b..cf29d14 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -283,14 +283,15 @@ int Propagator::AdvanceParticle(ParticleState &state,
         } else if (distance <= distance_to_border && distance == max_distance) {
             // reached max distance
             advancement_type = ReachedMaxDistance;
-        } else if (std::abs(distance - distance_to_border) <= PARTICLE_POSITION_RESOLUTION) {
+        } else if (std::abs(distance - distance_to_border) <= PARTICLE_POSITION_RESOLUTION
+                && distance_to_border <= max_distance) {
             // reached geometry border
             advancement_type = ReachedBorder;
             // the position is stored with limited precision: if the step is too
             // short to change it, the border will never be crossed
             auto min_step = std::min(COMPUTER_PRECISION * state.position.magnitude(),
                                      PARTICLE_POSITION_RESOLUTION);
-            distance = std::max(distance_to_border, min_step);
+            distance = std::min(std::max(distance_to_border, min_step), max_distance);
         } else {
             // iteration not finished! discard energy and grammage
             advancement_type = InvalidStep;
-- 
2.43.0


From 2f3733af4f4d874ad974ab4d310a25a207ef9441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:14 +0000
Subject: [PATCH 69/79] fix: maximal distance was exceeded when it coincides
 with an interaction

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index cf29d14..5afdeed 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -226,6 +226,9 @@ int Propagator::AdvanceParticle(ParticleState &state,
                 } catch (const DensityException&) {
                     distance = INF;
                 }
+                // the interaction is not behind the maximal distance, but
+                // rounding might put it there
+                distance = std::min(distance, max_distance);
             }
         } else {
             throw std::logic_error("Error in AdvanceParticle: Either both distance and final energy for the next "
@@ -252,10 +255,10 @@ int Propagator::AdvanceParticle(ParticleState &state,
                                                       PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS, distance,
                                                       distance_to_border, std::abs(distance - distance_to_border),
                                                       state.energy, energy);
-            distance = distance_to_border;
+            distance = std::min(distance_to_border, max_distance);
             grammage = density->Calculate(state.position, state.direction, distance);
             energy = utility.EnergyDistance(state.energy, grammage);
-            advancement_type = ReachedBorder;
+            advancement_type = distance < distance_to_border ? ReachedMaxDistance : ReachedBorder;
         } else if (!is_inside) {
             // Special case: We are on a sector border, but scattering into a different sector!
             // Update sector and recalculate values
-- 
2.43.0


From 3b202092ac918dd15ca648117910bedca35821dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:14 +0000
Subject: [PATCH 70/79] fix: propagation threw when the maximal distance agrees
 with the range

---
 .../propagation_utility/PropagationUtilityIntegral.cxx         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityIntegral.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityIntegral.cxx
index a778a73..8cd355d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityIntegral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityIntegral.cxx
@@ -27,6 +27,9 @@ double UtilityIntegral::GetUpperLimit(double energy_initial, double rnd)
         energy_initial, lower_lim, FunctionToIntegral, 4, -rnd);
 
     if (rnd > sum) {
+        // indistinguishable within the precision of the integration
+        if (rnd - sum <= IPREC2 * sum)
+            return lower_lim;
         throw std::logic_error("Unable to calculate GetUpperLimit since result"
                                "is below lower_lim. rnd was " + std::to_string(rnd)
                                + " with rnd_max " + std::to_string(sum));
-- 
2.43.0


From ff8ebda6b07283b80e46e6eabe898a4664fae5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 71/79] fix: states of a track for an energy: sign of the
 maximal distance, steps below the resolution

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 9f4de31..120e3db 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -90,10 +90,12 @@ ParticleState Secondaries::GetStateForEnergy(double energy) const
         if (track_[i].energy < energy) {
             if (types_[i] == InteractionType::ContinuousEnergyLoss) {
                 auto displacement = track_[i].position - track_[i-1].position;
+                if (displacement.magnitude() == 0) // step is not resolved
+                    displacement = track_[i-1].direction;
                 displacement.normalize();
                 return RePropagateEnergy(
                         track_[i-1], displacement, track_[i-1].energy - energy,
-                        track_[i-1].propagated_distance - track_[i].propagated_distance);
+                        track_[i].propagated_distance - track_[i-1].propagated_distance);
             } else {
                 return track_[i-1];
             }
@@ -111,6 +113,8 @@ ParticleState Secondaries::GetStateForDistance(double propagated_distance) const
     for (unsigned int i=1; i<track_.size(); i++) {
         if (track_[i].propagated_distance > propagated_distance) {
             auto displacement = track_[i].position - track_[i-1].position;
+            if (displacement.magnitude() == 0) // step is not resolved
+                displacement = track_[i-1].direction;
             displacement.normalize();
             return RePropagateDistance(
                     track_[i-1], displacement,
@@ -305,8 +309,12 @@ ParticleState Secondaries::RePropagateEnergy(const ParticleState& init,
     }
     auto advance_grammage = utility.LengthContinuous(init.energy,
                                                      init.energy - energy_lost);
-    auto displacement = density->Correct(init.position, init.direction,
-                                         advance_grammage, max_distance);
+    // the energy is reached within max_distance, rounding might contradict
+    auto displacement = max_distance;
+    try {
+        displacement = std::min(max_distance, density->Correct(
+                init.position, init.direction, advance_grammage, max_distance));
+    } catch (const DensityException&) {}
 
     auto E_f = init.energy - energy_lost;
     auto new_time = init.time + utility.TimeElapsed(
-- 
2.43.0


From 86658d57e3cc493fe58069572bfcc230477a69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 72/79] fix: time of re-propagated states was calculated from
 the distance instead of the grammage

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 120e3db..8b30739 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -317,8 +317,10 @@ ParticleState Secondaries::RePropagateEnergy(const ParticleState& init,
     } catch (const DensityException&) {}
 
     auto E_f = init.energy - energy_lost;
+    auto mean_density = displacement > 0 ? advance_grammage / displacement
+                                         : density->Evaluate(init.position);
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, mean_density);
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
 
@@ -342,8 +344,10 @@ ParticleState Secondaries::RePropagateDistance(const ParticleState& init,
     auto advance_grammage = density->Calculate(init.position, init.direction,
                                                displacement);
     auto E_f = utility.EnergyDistance(init.energy, advance_grammage);
+    auto mean_density = displacement > 0 ? advance_grammage / displacement
+                                         : density->Evaluate(init.position);
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, mean_density);
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
     return ParticleState((ParticleType)primary_def_->particle_type, new_position,
-- 
2.43.0


From 6103d52bb99c4ec59aad60c45cb8265ebf5e1248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 73/79] fix: unknown interaction names in GetStochasticLosses
 dereferenced the end of the map

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 8b30739..2a693c7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -443,7 +443,7 @@ std::vector<StochasticLoss> Secondaries::GetStochasticLosses(
         return p.second == interaction_type;
     });
     if (it == Type_Interaction_Name_Map.end())
-        Logging::Get("proposal.secondaries")->critical("Could not find interaction type {}", interaction_type);
+        throw std::invalid_argument("Could not find interaction type " + interaction_type);
 
     return GetStochasticLosses(it->first);
 }
-- 
2.43.0


From a4face6cc06536bce8da24816cb4162d231e5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 74/79] fix: GetELost crashed if the track starts, ends or
 stays inside or outside of the geometry

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 2a693c7..e74e983 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -167,9 +167,14 @@ std::vector<double> Secondaries::GetTrackPropagatedDistances() const
 
 double Secondaries::GetELost(const Geometry& geometry) const
 {
+    if (!HitGeometry(geometry))
+        return 0.;
+    // without an entry (exit) point, the track starts (ends) in the geometry
     auto entry_point = GetEntryPoint(geometry);
     auto exit_point = GetExitPoint(geometry);
-    return entry_point->energy - exit_point->energy;
+    auto E_entry = entry_point ? entry_point->energy : track_.front().energy;
+    auto E_exit = exit_point ? exit_point->energy : track_.back().energy;
+    return E_entry - E_exit;
 }
 
 std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
-- 
2.43.0


From 92347f073d89253ac693ae91ef805c30795d627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 75/79] fix: HitGeometry missed hollow geometries and reported
 hits for steps of zero length

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index e74e983..ce612e7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -280,14 +280,18 @@ bool Secondaries::HitGeometry(const Geometry& geometry) const {
         auto pos_a = track_[i].position;
         auto pos_b = track_[i+1].position;
         auto disp = (pos_b - pos_a);
+        auto length = disp.magnitude();
+        if (length == 0)
+            continue; // the particle did not move
         disp.normalize();
 
         // check if first track point lies inside geometry
         if (geometry.IsInside(pos_a, disp))
             return true;
 
-        // check if geometry lies between two track points
-        if (geometry.IsInfront(pos_a, disp) && geometry.IsBehind(pos_b, disp))
+        // check if geometry starts between two track points
+        auto distance = geometry.DistanceToBorder(pos_a, disp).first;
+        if (distance >= 0 && distance <= length)
             return true;
     }
 
-- 
2.43.0


From 023c9fd55ed35f8cab99d83e328115fd1acdc99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 76/79] fix: entry and exit points at track points on the
 border were missed due to rounding

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index ce612e7..b60c98b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -194,10 +194,13 @@ std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
 
         auto displacement = pos_f - pos_i;
         auto dist_i_f = displacement.magnitude();
+        if (dist_i_f == 0)
+            continue; // the particle did not move
         displacement.normalize();
 
+        // the track point itself might be on the border, up to rounding
         auto distance = geometry.DistanceToBorder(pos_i, displacement).first;
-        if (distance <= dist_i_f && distance >= 0) {
+        if (distance <= dist_i_f + PARTICLE_POSITION_RESOLUTION && distance >= 0) {
             if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
                 return std::make_unique<ParticleState>(track_[i+1]);
             auto entry_point = RePropagateDistance(track_[i], displacement,
@@ -225,10 +228,13 @@ std::shared_ptr<ParticleState> Secondaries::GetExitPoint(
 
         auto displacement = pos_f - pos_i;
         auto dist_i_f = displacement.magnitude();
+        if (dist_i_f == 0)
+            continue; // the particle did not move
         displacement.normalize();
 
+        // the track point itself might be on the border, up to rounding
         auto distance = geometry.DistanceToBorder(pos_f, -displacement).first;
-        if (distance <= dist_i_f && distance >= 0) {
+        if (distance <= dist_i_f + PARTICLE_POSITION_RESOLUTION && distance >= 0) {
             if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
                 return std::make_unique<ParticleState>(track_[i-1]);
             auto exit_point = RePropagateDistance(
-- 
2.43.0


From fd12c176adc5f7a6d4449ce99068ec89121fe9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 77/79] fix: closest approach point was the first local minimum
 of the distance

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 34 ++++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index b60c98b..ba2a083 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -254,8 +254,12 @@ std::shared_ptr<ParticleState> Secondaries::GetExitPoint(
 std::shared_ptr<ParticleState> Secondaries::GetClosestApproachPoint(
         const Geometry& geometry) const
 {
-   if (track_.size() == 1)
-       return std::make_unique<ParticleState>(track_.front());
+    auto distance_to_center = [&geometry](const Cartesian3D& position) {
+        return (position - geometry.GetPosition()).magnitude();
+    };
+
+    auto closest_approach = track_.front();
+    auto smallest_distance = distance_to_center(closest_approach.position);
 
     for (unsigned int i = 0; i < track_.size() - 1; i++) {
         auto pos_i = track_[i].position;
@@ -263,22 +267,24 @@ std::shared_ptr<ParticleState> Secondaries::GetClosestApproachPoint(
 
         auto displacement = pos_f - pos_i;
         auto dist_i_f = displacement.magnitude();
+        if (dist_i_f == 0)
+            continue; // the particle did not move
         displacement.normalize();
 
-        auto distance_to_closest_approach
-            = geometry.DistanceToClosestApproach(pos_i, displacement);
-        if (std::abs(distance_to_closest_approach - dist_i_f) <= PARTICLE_POSITION_RESOLUTION) {
-            return std::make_unique<ParticleState>(track_[i+1]);
-        } else if (distance_to_closest_approach < dist_i_f) {
-            if (distance_to_closest_approach < PARTICLE_POSITION_RESOLUTION)
-                return std::make_unique<ParticleState>(track_[i]);
-
-            auto closest_approach = RePropagateDistance(
-                    track_[i], displacement, distance_to_closest_approach);
-            return std::make_unique<ParticleState>(closest_approach);
+        auto advance = geometry.DistanceToClosestApproach(pos_i, displacement);
+        if (advance < PARTICLE_POSITION_RESOLUTION)
+            continue; // the track point at the start is closer
+        bool at_end = advance > dist_i_f - PARTICLE_POSITION_RESOLUTION;
+
+        auto distance = distance_to_center(
+                at_end ? pos_f : pos_i + displacement * advance);
+        if (distance < smallest_distance) {
+            smallest_distance = distance;
+            closest_approach = at_end
+                    ? track_[i+1] : RePropagateDistance(track_[i], displacement, advance);
         }
     }
-    return std::make_unique<ParticleState>(track_.back());
+    return std::make_unique<ParticleState>(closest_approach);
 }
 
 bool Secondaries::HitGeometry(const Geometry& geometry) const {
-- 
2.43.0


From 8b8e56074a52a3f2b31e5433c4237c5fad47a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 78/79] fix: continuous losses in a geometry were those of the
 step before

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index ba2a083..0275fee 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -494,8 +494,14 @@ std::vector<ContinuousLoss> Secondaries::GetContinuousLosses(const Geometry& geo
     // the track points are not exactly on the geometry border
     std::vector<ContinuousLoss> losses;
     for (unsigned int i=1; i<track_.size(); i++) {
-        if (geometry.IsInside(track_[i].position, track_[i].direction)) {
-            if (types_[i] == InteractionType::ContinuousEnergyLoss) {
+        if (types_[i] == InteractionType::ContinuousEnergyLoss) {
+            // track points on the border belong to the steps on both sides
+            auto displacement = track_[i].position - track_[i-1].position;
+            if (displacement.magnitude() == 0)
+                displacement = track_[i].direction;
+            displacement.normalize();
+            if (geometry.IsInside(track_[i-1].position, displacement)
+                && geometry.IsInside(track_[i].position, -displacement)) {
                 losses.emplace_back(
                         track_[i-1].energy - track_[i].energy,
                         track_[i-1].energy,
-- 
2.43.0


From 813bd28d0e1848fc440ddcea548c0bd2f73b64be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:17 +0000
Subject: [PATCH 79/79] fix: sectors without geometries in a configuration were
 dropped silently

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 5afdeed..3d53269 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -457,7 +457,8 @@ void Propagator::InitializeSectorFromJSON(const ParticleDef& p_def,
     }
     auto utility = PropagationUtility(collection);
 
-    if (json_sector.contains("geometries")) {
+    if (json_sector.contains("geometries")
+        && !json_sector["geometries"].empty()) {
         assert(json_sector["geometries"].is_array());
         for (const auto& json_geometry : json_sector.at("geometries")) {
             auto geometry = CreateGeometry(json_geometry);
-- 
2.43.0


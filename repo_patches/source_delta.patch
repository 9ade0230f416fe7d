From 264c17f531f82c1f02b678984d38419c0846994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 01/74] fix: evaluate rational curves with homogeneous control
 points

curve_point multiplied the coordinates by the weight again, while knot
insertion, splitting, isocurves, bounding boxes and surfaces all treat the
control points as homogeneous: splitting a rational curve changed its shape.
---
 cmmcore/nurbs_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index c2b9de0..b9e5629 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -133,8 +133,9 @@ namespace cmmcore {
 
         for (int i = 0; i < pp; ++i) {
             const int idx = span - p + i;
-            const double b = N[i] * P[idx].w;
-            sum_of_weights += b;
+            // Control points are homogeneous (wx, wy, wz, w), as everywhere else in the library
+            const double b = N[i];
+            sum_of_weights += b * P[idx].w;
             result.x += b * P[idx].x;
             result.y += b * P[idx].y;
             result.z += b * P[idx].z;
-- 
2.43.0


From a31bfbbabf7e9faaf728280fead6e5e66b5bb292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 02/74] fix: basis function derivatives for degrees above three

The tables had rows of four values, so any degree > 3 threw "Index must be 0-3".
---
 cmmcore/nurbs_utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index b9e5629..e0642a3 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -163,18 +163,18 @@ namespace cmmcore {
      * @param ders Output 2D vector where `ders[k][j]` contains the `k`-th derivative of the `j`-th nonzero basis function at `u`.
      */
     inline void ders_basis_funs(const int i, const double u, const int p, const int n, const std::vector<double> &U,
-                                std::vector<vec4> &ders) {
+                                std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > &ders) {
         int pp = p + 1;
         int nn = n + 1;
 
         // Initialize ders with zeros
-        ders.assign(nn, vec4( 0.0,0.0,0.0,.0));
+        ders.assign(nn, std::array<double, CMMCORE_DEG_STACK_SIZE>{});
 
-        std::array<vec4,CMMCORE_DEG_STACK_SIZE> ndu{};
+        std::array<std::array<double, CMMCORE_DEG_STACK_SIZE>,CMMCORE_DEG_STACK_SIZE> ndu{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> left{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> right{};
         //std::vector<double> right(pp, 0.0);
-        std::array<vec4,2>  a;
+        std::array<std::array<double, CMMCORE_DEG_STACK_SIZE>,2>  a{};
 
         ndu[0][0] = 1.0;
 
@@ -276,7 +276,7 @@ namespace cmmcore {
 
         int span = find_span(n, p, u, U, is_periodic);
 
-        std::vector<vec4> nders;
+        std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > nders;
         ders_basis_funs(span, u, p, du, U, nders);
 
         int pp = p + 1;
-- 
2.43.0


From 27ceb7f5d0e917e6905322c10780220f31389e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 03/74] fix: curve derivatives of orders above the degree are
 zero, not out of bounds

NURBSCurve::derivative(t, result, d) read past the end of the array for d > degree + 1.
---
 cmmcore/nurbs_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index e0642a3..61e3551 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -272,7 +272,8 @@ namespace cmmcore {
         int du = std::min(d, p);
 
         // Initialize CK with zeros
-        CK.assign(du + 1, vec4( 0.0,0.0,0.0,.0));
+        // (the derivatives above the degree vanish)
+        CK.assign(std::max(d, du) + 1, vec4( 0.0,0.0,0.0,.0));
 
         int span = find_span(n, p, u, U, is_periodic);
 
-- 
2.43.0


From 23672c7b1c34c08e9db9f9ea1fac3cc80679ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 04/74] fix: curve derivatives take the weights into account

The derivative of a rational curve is the derivative of the quotient, not of
its numerator.
---
 cmmcore/nurbs.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 341a108..0feaeaa 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -329,12 +329,13 @@ namespace cmmcore {
             std::vector<vec4> CK(1);
 
             curve_derivs_alg1(n, _degree, knots, control_points, t, 1, CK, _periodic);
-            auto der = CK[1];
+            const auto &val = CK[0];
+            const auto &der = CK[1];
 
-            //printf("(%f,%f,%f,%f)\n",der.x,der.y,der.z,der.w);
-            result.x = der.x;
-            result.y = der.y;
-            result.z = der.z;
+            // Quotient rule: (A/w)' = (A' - w' * (A/w)) / w
+            result.x = (der.x - der.w * (val.x / val.w)) / val.w;
+            result.y = (der.y - der.w * (val.y / val.w)) / val.w;
+            result.z = (der.z - der.w * (val.z / val.w)) / val.w;
         }
 
 
@@ -383,12 +384,15 @@ namespace cmmcore {
 
             std::vector<vec4> CK(result.size());
             curve_derivs_alg1(n, _degree, knots, control_points, t, d, CK, _periodic);
-            for (int i = 0; i < d; ++i) {
-                auto &der = CK[i];
-                auto &target = result[i];
-                target.x = der.x;
-                target.y = der.y;
-                target.z = der.z;
+            // Derivatives of the quotient A/w (see The NURBS Book, A4.2)
+            for (size_t i = 0; i < d; ++i) {
+                vec3 v(CK[i].x, CK[i].y, CK[i].z);
+                double bin = 1.;
+                for (size_t j = 1; j <= i; ++j) {
+                    bin *= static_cast<double>(i - j + 1) / static_cast<double>(j);
+                    v -= result[i - j] * (bin * CK[j].w);
+                }
+                result[i].set(v / CK[0].w);
             }
         }
 
-- 
2.43.0


From 26f32735d6e7ddc58c8f86bc522892e011afb5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 05/74] fix: second_derivative_fdm computes the second
 derivative

It returned the first derivative; the documented formula is used now.
---
 cmmcore/nurbs.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 0feaeaa..10b7503 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -427,10 +427,13 @@ namespace cmmcore {
          */
         void second_derivative_fdm(const double t, vec3 &result) const {
             vec3 temp;
+            vec3 mid;
             evaluate(t - 1e-5, temp);
+            evaluate(t, mid);
             evaluate(t + 1e-5, result);
-            result -= temp;
-            result /= 2e-5;
+            result -= (2 * mid);
+            result += temp;
+            result /= 1e-10;
         }
 
 
-- 
2.43.0


From 9164520e99d7a52bb83d48ef4e19d0d2bc131a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 06/74] fix: moving a curve keeps its periodic flag

---
 cmmcore/nurbs.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 10b7503..a2f45da 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -141,6 +141,7 @@ namespace cmmcore {
                 _degree = other._degree;
                 knots = other.knots;
                 _aabb = other._aabb;
+                _periodic = other._periodic;
                 _interval = other._interval;
                 _hull = other._hull;
             }
-- 
2.43.0


From 5bcfa386e7a3905977da0a28a7711732a19ea31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 07/74] fix: replacing the control points updates the bounding
 box

aabb() kept describing the previous control points.
---
 cmmcore/nurbs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index a2f45da..76ddad1 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -496,6 +496,9 @@ namespace cmmcore {
                     generate_knots();
                 }
             }
+            if (!control_points.empty()) {
+                rebuildAABB();
+            }
         }
 
         int get_degree() const {
-- 
2.43.0


From a9f3dcfd2b3b7fdbf44ad4f071bd6390d5208269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 08/74] fix: isocurves and derivative curves have a bounding
 box

aabb() of the returned curves was unset, so ccx() discarded every intersection
of an isocurve.
---
 cmmcore/nurbs.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 76ddad1..37adaa8 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -454,6 +454,7 @@ namespace cmmcore {
                                  derivative.control_points);
 
             derivative.update_interval();
+            derivative.rebuildAABB();
         }
 
         NURBSCurve get_derivative() const {
@@ -461,6 +462,7 @@ namespace cmmcore {
             get_nurbs_derivative(_degree, knots, control_points, derivative._degree, derivative.knots,
                                  derivative.control_points);
             derivative.update_interval();
+            derivative.rebuildAABB();
             return derivative;
         }
 
@@ -1229,6 +1231,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     crv.control_points[i] = point;
                 }
                 crv.update_interval();
+                crv.rebuildAABB();
 
                 return crv;
             } else {
@@ -1262,6 +1265,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     }
                     crv.control_points[i] = point;
                 }
+                crv.rebuildAABB();
 
                 return crv;
             }
-- 
2.43.0


From 7033103d23c96f514c6e9285844821f725057b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 09/74] fix: the domain of a periodic curve is [U[p], U[m-p]]

---
 cmmcore/nurbs.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 37adaa8..0ce566b 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -173,9 +173,15 @@ namespace cmmcore {
         }
 
         // Update interval based on knots
+        // (the domain is [U[p], U[m-p]], also for unclamped knot vectors of periodic curves)
         void update_interval() {
-            _interval[0] = std::min_element(knots.begin(), knots.end())[0];
-            _interval[1] = std::max_element(knots.begin(), knots.end())[0];
+            if (_degree >= 0 && knots.size() >= 2 * (static_cast<size_t>(_degree) + 1)) {
+                _interval[0] = knots[_degree];
+                _interval[1] = knots[knots.size() - 1 - _degree];
+            } else {
+                _interval[0] = std::min_element(knots.begin(), knots.end())[0];
+                _interval[1] = std::max_element(knots.begin(), knots.end())[0];
+            }
         }
 
         // Hook function called after knots are updated
-- 
2.43.0


From 98cea55a26e701a5acf77cc6f087740a68ccdc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 10/74] fix: joining curves keeps their shape and orientation

---
 cmmcore/nurbs.h | 68 ++++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 37 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 0ce566b..671bb0b 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -603,6 +603,10 @@ namespace cmmcore {
             if (is_periodic() || second.is_periodic()) {
                 return false;
             }
+            // Curves of different degrees have no common representation without degree elevation
+            if (_degree != second._degree) {
+                return false;
+            }
 
             // Get endpoints of both curves
             vec3 first_start, first_end, second_start, second_end;
@@ -625,47 +629,37 @@ namespace cmmcore {
                 return false;
             }
 
-            // Get control points from both curves
-            std::vector<vec4> new_control_points;
-            new_control_points.reserve(control_points.size() + second.control_points.size());
-
-            // Join based on which endpoints match
-            if (end_start) {
-                // Normal case: first end to second start
-                new_control_points = control_points;
-                new_control_points.insert(new_control_points.end(),
-                                          second.control_points.begin(), second.control_points.end());
-            } else if (start_start) {
-                // Reverse first curve
-                new_control_points.insert(new_control_points.end(),
-                                          control_points.rbegin(), control_points.rend());
-                new_control_points.insert(new_control_points.end(),
-                                          second.control_points.begin(), second.control_points.end());
-            } else if (end_end) {
-                // Reverse second curve
-                new_control_points = control_points;
-                new_control_points.insert(new_control_points.end(),
-                                          second.control_points.rbegin(), second.control_points.rend());
-            } else if (start_end) {
-                // Reverse first curve and reverse second curve
-                new_control_points.insert(new_control_points.end(),
-                                          control_points.rbegin(), control_points.rend());
-                new_control_points.insert(new_control_points.end(),
-                                          second.control_points.rbegin(), second.control_points.rend());
+            // Orient the curves so that the first one ends where the second one starts
+            auto reversed = [](const NURBSCurve &curve) {
+                std::vector<vec4> cpts(curve.control_points.rbegin(), curve.control_points.rend());
+                std::vector<double> kv(curve.knots.rbegin(), curve.knots.rend());
+                const double sum = curve.knots.front() + curve.knots.back();
+                for (auto &knot: kv) {
+                    knot = sum - knot;
+                }
+                return NURBSCurve(cpts, curve._degree, kv, false);
+            };
+            const bool keep_first = end_start || (!start_start && end_end);
+            const bool keep_second = end_start || start_start;
+            const NURBSCurve a = keep_first ? *this : reversed(*this);
+            const NURBSCurve b = keep_second ? second : reversed(second);
+
+            // The junction is stored once, with the same weight on both sides,
+            // and its knot has multiplicity equal to the degree
+            std::vector<vec4> new_control_points = a.control_points;
+            const double w = a.control_points.back().w / b.control_points.front().w;
+            for (size_t i = 1; i < b.control_points.size(); ++i) {
+                const vec4 &p = b.control_points[i];
+                new_control_points.emplace_back(p.x * w, p.y * w, p.z * w, p.w * w);
             }
-
-            // If both start and end points match (after potential reversals), make it periodic
-            bool should_be_periodic = false; {
-                vec3 new_start, new_end;
-                vec4 start_pt = new_control_points.front();
-                vec4 end_pt = new_control_points.back();
-                new_start.set(start_pt.x / start_pt.w, start_pt.y / start_pt.w, start_pt.z / start_pt.w);
-                new_end.set(end_pt.x / end_pt.w, end_pt.y / end_pt.w, end_pt.z / end_pt.w);
-                should_be_periodic = new_start.distance(new_end) < tol;
+            std::vector<double> new_knots(a.knots.begin(), a.knots.end() - 1);
+            const double shift = a._interval[1] - b._interval[0];
+            for (size_t i = b._degree + 1; i < b.knots.size(); ++i) {
+                new_knots.push_back(b.knots[i] + shift);
             }
 
             // Create result curve
-            result = NURBSCurve(new_control_points, _degree, should_be_periodic);
+            result = NURBSCurve(new_control_points, _degree, new_knots, false);
             return true;
         }
 
-- 
2.43.0


From 0427d8401cc8e589513690d33e72a5ea1264c201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 11/74] fix: knot removal keeps the curve and only removes
 removable knots

---
 cmmcore/nurbs_utils.h | 58 ++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 61e3551..202e09a 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -771,21 +771,23 @@ namespace cmmcore {
         std::vector<vec4> ctrlpts_new = ctrlpts;
         std::vector<vec4> temp(2 * degree + 1,vec4(0.,0.,0.,0.));
 
-        for (int t = 0; t < num; ++t) {
-            temp[0] = ctrlpts[first - 1];
-            temp[last - first + 2] = ctrlpts[last + 1];
+        // See The NURBS Book, A5.8
+        int t = 0;
+        for (; t < num; ++t) {
+            temp[0] = ctrlpts_new[first - 1];
+            temp[last - first + 2] = ctrlpts_new[last + 1];
             int i = first;
             int j = last;
             int ii = 1;
             int jj = last - first + 1;
             bool remflag = false;
 
-            while (j - i >= t) {
+            while (j - i > t) {
                 double alpha_i = knot_removal_alpha_i(u, degree, knots, t, i);
                 double alpha_j = knot_removal_alpha_j(u, degree, knots, t, j);
                 for (int k = 0; k < dim; ++k) {
-                    temp[ii][k] = (ctrlpts[i][k] - (1.0 - alpha_i) * temp[ii - 1][k]) / alpha_i;
-                    temp[jj][k] = (ctrlpts[j][k] - alpha_j * temp[jj + 1][k]) / (1.0 - alpha_j);
+                    temp[ii][k] = (ctrlpts_new[i][k] - (1.0 - alpha_i) * temp[ii - 1][k]) / alpha_i;
+                    temp[jj][k] = (ctrlpts_new[j][k] - alpha_j * temp[jj + 1][k]) / (1.0 - alpha_j);
                 }
                 i += 1;
                 j -= 1;
@@ -803,30 +805,46 @@ namespace cmmcore {
                 for (int k = 0; k < dim; ++k) {
                     ptn[k] = alpha_i * temp[ii + t + 1][k] + (1.0 - alpha_i) * temp[ii - 1][k];
                 }
-                if (point_distance(&ctrlpts[i].x, &ptn.x, dim) <= tol) {
+                if (point_distance(&ctrlpts_new[i].x, &ptn.x, dim) <= tol) {
                     remflag = true;
                 }
             }
 
-            if (remflag) {
-                i = first;
-                j = last;
-                while (j - i > t) {
-                    ctrlpts_new[i] = temp[i - first + 1];
-                    ctrlpts_new[j] = temp[j - first + 1];
-                    i += 1;
-                    j -= 1;
-                }
+            if (!remflag) {
+                // The knot cannot be removed (any further)
+                break;
+            }
+
+            i = first;
+            j = last;
+            while (j - i > t) {
+                ctrlpts_new[i] = temp[i - first + 1];
+                ctrlpts_new[j] = temp[j - first + 1];
+                i += 1;
+                j -= 1;
             }
 
             first -= 1;
             last += 1;
         }
 
-        int t_total = num;
-        int new_size = static_cast<int>(ctrlpts_new.size()) - t_total;
-
-        ctrlpts_new.resize(new_size);
+        if (t > 0) {
+            // Close the gap left by the removed control points
+            int j = (2 * r - s - degree) / 2;
+            int i = j;
+            for (int k = 1; k < t; ++k) {
+                if (k % 2 == 1) {
+                    i += 1;
+                } else {
+                    j -= 1;
+                }
+            }
+            for (int k = i + 1; k <= n; ++k) {
+                ctrlpts_new[j] = ctrlpts_new[k];
+                j += 1;
+            }
+            ctrlpts_new.resize(n + 1 - t);
+        }
 
         return ctrlpts_new;
     }
-- 
2.43.0


From a432093aff020e3c59e253a61759057fcf6e75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:52 +0000
Subject: [PATCH 12/74] fix: extract_isocurve in the v direction keeps the
 surface's knots

---
 cmmcore/boundary_intersection.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index c2ae11a..ae9a1cf 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -63,6 +63,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             crv.control_points[i].set(point);
         }
         crv.update_interval();
+        crv.rebuildAABB();
 
         return crv;
     }
@@ -86,6 +87,10 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
         // The curve will have as many control points as the surface has in u direction
         int m = surface._size[0];
         NURBSCurve crv(m, surface._degree[0]);
+        for (size_t i=0;i<surface._knots_u.size();i++) {
+            crv.knots[i]=surface._knots_u[i];
+        }
+        crv.update_interval();
 
         // Compute control points for the extracted curve
         for (int i = 0; i < m; ++i) {
@@ -95,6 +100,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             }
             crv.control_points[i] = point;
         }
+        crv.rebuildAABB();
 
         return crv;
     }
-- 
2.43.0


From ae4e2db76543123959f84d86e5f73785e88dce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:52 +0000
Subject: [PATCH 13/74] fix: the derivative surface has its size, domain and
 weights set

---
 cmmcore/nurbs.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 671bb0b..888a27a 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1169,10 +1169,20 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             std::array<int, 2> new_degrees = {
                 direction == 0 ? new_degree : _degree[0], direction == 1 ? new_degree : _degree[1]
             };
-            result._control_points = new_control_points;
+            // The derivative is a polynomial surface: its control points are vectors of unit weight
+            for (auto &row: new_control_points) {
+                for (auto &p: row) {
+                    p.w = 1.0;
+                }
+            }
+            std::vector<double> new_knots_u = direction == 0 ? new_knots : _knots_u;
+            std::vector<double> new_knots_v = direction == 1 ? new_knots : _knots_v;
+            result._control_points = std::move(new_control_points);
+            result._size = {result._control_points.size(), result._control_points[0].size()};
             result._degree = new_degrees;
-            result._knots_u = direction == 0 ? new_knots : _knots_u;
-            result._knots_v = direction == 1 ? new_knots : _knots_v;
+            result._knots_u = std::move(new_knots_u);
+            result._knots_v = std::move(new_knots_v);
+            result.update_interval();
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From ed485151e1eb15dbdea83156b25d20deac65b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:45 +0000
Subject: [PATCH 14/74] fix: surfaces compute the box returned by aabb()

---
 cmmcore/nurbs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 888a27a..9846c3e 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -744,6 +744,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            _aabb = bbox();
         }
 
         NURBSSurface(const std::vector<std::vector<vec3> > &control_points, const std::array<int, 2> &degree,
@@ -770,6 +771,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            _aabb = bbox();
         }
 
         std::array<size_t, 2> &shape() {
@@ -1183,6 +1185,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result._knots_u = std::move(new_knots_u);
             result._knots_v = std::move(new_knots_v);
             result.update_interval();
+            result._aabb = result.bbox();
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From fdef2cfb4fc3da09dd6a357ca0ead7f266d57b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 15/74] fix: unitize also scales up vectors shorter than one

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index f00c74c..7accffd 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -419,7 +419,7 @@ struct vec3 {
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else {
       x/=l;
       y/=l;
@@ -954,7 +954,7 @@ struct vec4 {
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else
     {
       x/=(w*l);
-- 
2.43.0


From a06edce263070f01a7c51acc46ce5ee7faa8555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 16/74] fix: vector lengths are computed in double precision

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 7accffd..9e09fe6 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -415,7 +415,7 @@ struct vec3 {
     #else
     double sq=x*x+y*y+z*z;
     #endif
-    return sqrtf(sq);
+    return std::sqrt(sq);
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
@@ -948,7 +948,7 @@ struct vec4 {
     return res;
     #else
     double sq=x*x+y*y+z*z+w*w;
-    return sqrtf(sq);
+    return std::sqrt(sq);
     #endif
 
   }
-- 
2.43.0


From efc98c2f7a629efab5515c994958611d6fcdbc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 17/74] fix: dist() and mag2() square the components

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 9e09fe6..09bba98 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -607,7 +607,7 @@ inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
 #define sqr(x) ((x)*(x))
 double mag2(const vec3 &a)
 {
-  double l=std::sqrt(a[0]);
+  double l=sqr(a[0]);
   for(unsigned int i=1; i<3; ++i) l+=sqr(a[i]);
   return l;
 }
@@ -617,7 +617,7 @@ inline double dot(const vec3& a, const vec3& b) {
 }
 inline double dist(const vec3& a, const vec3& b) {
 
-  return  std::sqrt((a.x-b.x)+(a.y-b.y)+(a.z-b.z));;
+  return (a-b).length();
 }
 inline double dist2(const vec3& a, const vec3& b) {
 
-- 
2.43.0


From e6edc7cb8ec26068566cb94b9e7bc2e38d12d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 18/74] fix: dot_product over a vector list stays within the
 list

---
 cmmcore/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 09bba98..facd240 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -599,7 +599,7 @@ inline void dot_product(const Vec3& v, const Vectors3& vecs, double* result) {
 
 #else
 inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
-  for (int i=0; i  <= vecs.size; i ++) {
+  for (size_t i=0; i < vecs.size; i ++) {
     result[i]=v.dot(vecs.x[i],vecs.y[i],vecs.z[i]);
   }
 }
-- 
2.43.0


From b1e2f278f1c9afafa8b11f171ba58149db3f0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 19/74] fix: vec4 equality, dot product and sum take the fourth
 component into account

---
 cmmcore/vec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index facd240..a015618 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -762,7 +762,8 @@ struct vec4 {
 
     return std::abs(x - other.x) < std::numeric_limits<double>::epsilon() &&
            std::abs(y - other.y) < std::numeric_limits<double>::epsilon()&&
-           std::abs(z - other.z) < std::numeric_limits<double>::epsilon();
+           std::abs(z - other.z) < std::numeric_limits<double>::epsilon()&&
+           std::abs(w - other.w) < std::numeric_limits<double>::epsilon();
   }
   /**
  * @brief Access vector components by index.
@@ -842,7 +843,7 @@ struct vec4 {
 
 #else
 
-    return x * b.x + y * b.y + z * b.z;
+    return x * b.x + y * b.y + z * b.z + w * b.w;
 #endif
   }
 
@@ -929,6 +930,7 @@ struct vec4 {
     result.x=x + b.x;
     result.y=y + b.y;
     result.z=z + b.z;
+    result.w=w + b.w;
 #endif
 
   }
-- 
2.43.0


From 80aa1ff0cda3dade8d46a1b49fa8fb9e2c760a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 20/74] fix: vec4 cross product with an output argument uses
 the right components

---
 cmmcore/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index a015618..f461300 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -858,9 +858,9 @@ struct vec4 {
   void cross( const vec4& b, vec4& result ) const {
     auto v1=to_vec3();
     auto v2=b.to_vec3();
-    result.x = v1.y * v2.z -  v2.z *  v2.y;
-    result.y=  v1.z * v2.x  - v2.x * v2.z;
-    result.z=  v1.x * v2.y  - v2.y * v2.x;
+    result.x = v1.y * v2.z -  v1.z *  v2.y;
+    result.y=  v1.z * v2.x  - v1.x * v2.z;
+    result.z=  v1.x * v2.y  - v1.y * v2.x;
     result.w=1.;
   }
   void cross( const vec3& b, vec3& result ) const {
-- 
2.43.0


From 6633754786da03bb32e8238edbbeca82c831ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 21/74] fix: MemoryView::size() multiplies the extents

---
 cmmcore/memoryview.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 54dd5ed..476da85 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -96,7 +96,7 @@ namespace cmmcore
             size_t size=1;
             for (size_t i = 0 ; i<shape_.size();i++)
             {
-                i*=shape_[i];
+                size*=shape_[i];
             }
             return size;
         }
-- 
2.43.0


From 8f766d5a0559dab1f9f8dd6c073e817352f26ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 22/74] fix: MemoryView::copy() copies the elements the view
 addresses

---
 cmmcore/memoryview.h | 46 +++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 476da85..011a73d 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -10,6 +10,8 @@
 #include <numeric>
 #include <iostream>
 #include <cassert>
+#include <algorithm>
+#include <memory>
 #include <sstream>
 #include <string>
 #include <typeinfo>
@@ -102,11 +104,11 @@ namespace cmmcore
         }
         MemoryView<T>* copy() const
         {
-            size_t _size=size();
-            T* ptr = (T*)malloc(_size*sizeof(T));
-            memcpy(ptr,data_,_size*sizeof(T));
-            auto* mv=new MemoryView<T>(ptr,shape_, strides_, offset_);
-            mv->is_managed_=true;
+            const std::vector<T> elements = elements_row_major();
+            std::shared_ptr<T> ptr(new T[elements.size()], std::default_delete<T[]>());
+            std::copy(elements.begin(), elements.end(), ptr.get());
+            auto* mv=new MemoryView<T>(ptr.get(),shape_);
+            mv->owner_=ptr;
             return mv;
 
 
@@ -473,20 +475,9 @@ namespace cmmcore
             // Deserialize
             return deserialize(buffer);
         }
-        ~MemoryView()
-        {
-            if (is_managed_)
-            {
-                if (data_!=nullptr)
-                {
-                    free(data_);
-                }
-
-            }
-        }
-
     private:
-        bool is_managed_=false;
+        // Keeps the elements of a copied view alive
+        std::shared_ptr<T> owner_;
         T* data_;
         std::vector<size_t> shape_;
         std::vector<size_t> strides_;
@@ -494,6 +485,25 @@ namespace cmmcore
 
 
 
+        // The elements of the view in row-major order, whatever its strides
+        std::vector<T> elements_row_major() const
+        {
+            std::vector<T> elements;
+            if (compute_total_size(shape_) == 0) return elements;
+            std::vector<size_t> index(shape_.size(), 0);
+            size_t dim = shape_.size();
+            while (true)
+            {
+                elements.push_back((*this)(index));
+                for (dim = shape_.size(); dim > 0; --dim)
+                {
+                    if (++index[dim - 1] < shape_[dim - 1]) break;
+                    index[dim - 1] = 0;
+                }
+                if (dim == 0) return elements;
+            }
+        }
+
         // Compute strides based on the current shape
         void compute_strides()
         {
-- 
2.43.0


From 6b8541233d73f79bdd7abc0cbe4d0a3381eee4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 23/74] fix: backward slices of a MemoryView stay inside the
 array

---
 cmmcore/memoryview.h | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 011a73d..311de8e 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -149,22 +149,25 @@ namespace cmmcore
                 else
                 {
                     // Handle range slice
-                    int start = s.has_start ? s.start : 0;
-                    int stop = s.has_stop ? s.stop : static_cast<int>(shape_[i]);
                     int step = s.step;
-
-                    // Handle negative indices
-                    if (start < 0) start += static_cast<int>(shape_[i]);
-                    if (stop < 0) stop += static_cast<int>(shape_[i]);
-
-                    // Clamp start and stop
-                    start = std::max(0, std::min(start, static_cast<int>(shape_[i])));
-                    stop = std::max(0, std::min(stop, static_cast<int>(shape_[i])));
-
                     if (step == 0)
                     {
                         throw std::invalid_argument("Slice step cannot be zero");
                     }
+                    const int n = static_cast<int>(shape_[i]);
+                    int start = s.has_start ? s.start : (step > 0 ? 0 : n - 1);
+                    int stop = s.has_stop ? s.stop : (step > 0 ? n : -1);
+
+                    // Handle negative indices
+                    if (s.has_start && start < 0) start += n;
+                    if (s.has_stop && stop < 0) stop += n;
+
+                    // Clamp start and stop: a backward slice starts at the last element at most
+                    // and may run down to just before the first one
+                    const int lowest = step > 0 ? 0 : -1;
+                    const int highest = step > 0 ? n : n - 1;
+                    start = std::max(lowest, std::min(start, highest));
+                    stop = std::max(lowest, std::min(stop, highest));
 
                     // Compute the number of elements in this slice
                     int length = 0;
@@ -185,7 +188,7 @@ namespace cmmcore
                     length = std::max(length, 0);
                     new_shape.push_back(static_cast<size_t>(length));
                     new_strides.push_back(strides_[i] * step);
-                    new_offset += start * strides_[i];
+                    if (length > 0) new_offset += start * strides_[i];
                 }
             }
 
-- 
2.43.0


From 3be40a05a0af91ca89debffc8e8cd21faec87241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 24/74] fix: reshaping a non-contiguous MemoryView is refused

---
 cmmcore/memoryview.h | 49 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 311de8e..7d272b1 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -211,6 +211,13 @@ namespace cmmcore
             {
                 throw std::invalid_argument("Total size must remain unchanged in reshape");
             }
+            if (current_total != 0)
+            {
+                std::vector<size_t> new_strides = strides_for(new_shape);
+                shape_ = new_shape;
+                strides_ = new_strides;
+                return;
+            }
             shape_ = new_shape;
             compute_strides();
         }
@@ -507,6 +514,48 @@ namespace cmmcore
             }
         }
 
+        // Strides addressing the elements of this (non-empty) view in the same order under
+        // another shape of the same size, if there are such
+        std::vector<size_t> strides_for(const std::vector<size_t>& new_shape) const
+        {
+            std::vector<size_t> old_shape, old_strides;
+            for (size_t i = 0; i < shape_.size(); ++i)
+            {
+                if (shape_[i] == 1) continue;
+                old_shape.push_back(shape_[i]);
+                old_strides.push_back(strides_[i]);
+            }
+            std::vector<size_t> new_strides(new_shape.size(), 1);
+            size_t new_begin = 0, old_begin = 0;
+            while (old_begin < old_shape.size())
+            {
+                // The smallest groups of old and new dimensions with equally many elements
+                size_t new_end = new_begin + 1, old_end = old_begin + 1;
+                size_t new_count = new_shape[new_begin], old_count = old_shape[old_begin];
+                while (new_count != old_count)
+                {
+                    if (new_count < old_count) new_count *= new_shape[new_end++];
+                    else old_count *= old_shape[old_end++];
+                }
+                for (size_t i = old_begin; i + 1 < old_end; ++i)
+                {
+                    if (old_strides[i] != old_strides[i + 1] * old_shape[i + 1])
+                    {
+                        throw std::invalid_argument("A non-contiguous view cannot be reshaped in place");
+                    }
+                }
+                size_t stride = old_strides[old_end - 1];
+                for (size_t i = new_end; i > new_begin; --i)
+                {
+                    new_strides[i - 1] = stride;
+                    stride *= new_shape[i - 1];
+                }
+                new_begin = new_end;
+                old_begin = old_end;
+            }
+            return new_strides;
+        }
+
         // Compute strides based on the current shape
         void compute_strides()
         {
-- 
2.43.0


From 91d9f5f8003935d065fdd5d0ec8de7d0e41b968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 25/74] fix: serialising a sliced MemoryView stores the
 elements it addresses

---
 cmmcore/memoryview.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 7d272b1..1cf51ad 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -338,21 +338,25 @@ namespace cmmcore
                           reinterpret_cast<const char*>(shape_.data()),
                           reinterpret_cast<const char*>(shape_.data()) + sizeof(size_t) * ndim);
 
+            // The elements are stored contiguously, so are the strides and offset
+            const std::vector<T> elements = elements_row_major();
+            const MemoryView<T> stored(nullptr, shape_);
+
             // Serialize Strides
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(strides_.data()),
-                          reinterpret_cast<const char*>(strides_.data()) + sizeof(size_t) * strides_.size());
+                          reinterpret_cast<const char*>(stored.strides_.data()),
+                          reinterpret_cast<const char*>(stored.strides_.data()) + sizeof(size_t) * stored.strides_.size());
 
             // Serialize Offset
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(&offset_),
-                          reinterpret_cast<const char*>(&offset_) + sizeof(size_t));
+                          reinterpret_cast<const char*>(&stored.offset_),
+                          reinterpret_cast<const char*>(&stored.offset_) + sizeof(size_t));
 
             // Serialize Data
-            size_t data_size = compute_total_size(shape_) * sizeof(T);
+            size_t data_size = elements.size() * sizeof(T);
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(data_ + offset_),
-                          reinterpret_cast<const char*>(data_ + offset_) + data_size);
+                          reinterpret_cast<const char*>(elements.data()),
+                          reinterpret_cast<const char*>(elements.data()) + data_size);
 
             return buffer;
         }
-- 
2.43.0


From 2c54b27fed29a195c2e14814ee4a5249ec83108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 26/74] fix: the preview of a MemoryView reads only its own
 elements

---
 cmmcore/memoryview.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 1cf51ad..4a578e4 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -290,9 +290,10 @@ namespace cmmcore
 
             size_t total_elements = compute_total_size(shape_);
             size_t display_count = std::min(preview_limit, total_elements);
+            const std::vector<T> elements = elements_row_major();
             for (size_t i = 0; i < display_count; ++i)
             {
-                oss << data_[offset_ + i * strides_[0]];
+                oss << elements[i];
                 if (i != display_count - 1) oss << ", ";
             }
             if (display_count < total_elements)
-- 
2.43.0


From 16c320062bb19bff4b60f4955221491e8d326dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 27/74] fix: BVHNode::setRight sets the right child

---
 cmmcore/bvh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 6380fe4..d455702 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -136,7 +136,7 @@ public:
   explicit BVHNode(const AABB &bb, Object3D *obj = nullptr)
       : bounding_box(bb), object(obj) {}
   void setLeft(std::unique_ptr<BVHNode> &node) { left.swap(node); }
-  void setRight(std::unique_ptr<BVHNode> &node) { left.swap(node); }
+  void setRight(std::unique_ptr<BVHNode> &node) { right.swap(node); }
   // Custom copy assignment operator for deep copy
   BVHNode& operator=(const BVHNode& other) {
     if (this == &other) return *this; // Handle self-assignment
-- 
2.43.0


From 5c9281f4ece8228ed0b6828d1cf28efba0aaa20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 28/74] fix: copying a BVH keeps the objects of its leaves

---
 cmmcore/bvh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index d455702..485eb2d 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -124,7 +124,7 @@ public:
   BVHNode() : left(nullptr), right(nullptr), object(nullptr) {
 
   }
-  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(nullptr) {
+  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(other.object) {
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
     }
@@ -143,7 +143,7 @@ public:
 
     bounding_box = other.bounding_box;
 
-    object=other.object? object : nullptr;
+    object = other.object;
 
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
-- 
2.43.0


From c6d03d3e1cf51b20d49e10d6875be343b229d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 29/74] fix: AABB::infinity() recognises the empty box

---
 cmmcore/aabb.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/aabb.h b/cmmcore/aabb.h
index f9311cb..8a3a973 100644
--- a/cmmcore/aabb.h
+++ b/cmmcore/aabb.h
@@ -31,8 +31,10 @@ namespace cmmcore{
       }
     }
     bool infinity() const {
-      return (max.x == max.y == max.z == std::numeric_limits<double>::min() && min.x == min.y == min.z ==
-              std::numeric_limits<double>::max());
+      constexpr double lowest = std::numeric_limits<double>::lowest();
+      constexpr double highest = std::numeric_limits<double>::max();
+      return max.x == lowest && max.y == lowest && max.z == lowest &&
+             min.x == highest && min.y == highest && min.z == highest;
     }
 
     /**
-- 
2.43.0


From abe0cde825d15f232019eb0b9839605f6f4a0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 30/74] fix: the plane through three points was computed in
 single precision

---
 cmmcore/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 10684a5..7b8da2a 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -11,9 +11,9 @@ namespace cmmcore
 {
     inline void plane_eq_from_pts(const vec3& pt0, const vec3& pt1, const vec3& pt2, vec4& equation)
     {
-        const float x3 = pt0.y * pt1.z;
-        const float x4 = pt1.y * pt2.z;
-        const float x5 = pt2.y * pt0.z;
+        const double x3 = pt0.y * pt1.z;
+        const double x4 = pt1.y * pt2.z;
+        const double x5 = pt2.y * pt0.z;
         equation.x = x3 + x4 + x5 - pt0.y * pt2.z - pt1.y * pt0.z - pt2.y * pt1.z;
         equation.y = -pt0.x * pt1.z + pt0.x * pt2.z + pt1.x * pt0.z - pt1.x * pt2.z - pt2.x * pt0.z + pt2.x * pt1.z;
         equation.z = pt0.x * pt1.y - pt0.x * pt2.y - pt1.x * pt0.y + pt1.x * pt2.y + pt2.x * pt0.y - pt2.x * pt1.y;
-- 
2.43.0


From a36ff94249263aec176d42b1f5a9533e33741aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 31/74] fix: a plane from origin and normal used only the z
 components for its offset (comma operator)

---
 cmmcore/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 7b8da2a..c965b0c 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -50,7 +50,7 @@ namespace cmmcore
 
         plane(const vec3& _origin, const vec3& _normal) : denominator(_normal.length()),
                                                           equation(_normal.x, _normal.y, _normal.z,
-                                                                   -(_normal.x * _origin.x, _normal.y * _origin.y,
+                                                                   -(_normal.x * _origin.x + _normal.y * _origin.y +
                                                                        _normal.z * _origin.z)),
                                                           normal(_normal / denominator), origin(_origin)
         {
-- 
2.43.0


From ea3964e41611f07b00356d47132fc6b97024440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 32/74] fix: the origin of a plane was not on the plane

---
 cmmcore/plane.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index c965b0c..b5f0440 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -40,7 +40,7 @@ namespace cmmcore
             computeDenominator();
 
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         }
 
         plane(const vec3& _normal) : denominator(_normal.length()), equation(_normal.x, _normal.y, _normal.z, 0),
@@ -61,7 +61,7 @@ namespace cmmcore
             plane_eq_from_pts(std::get<0>(_pts), std::get<1>(_pts), std::get<2>(_pts), equation);
             computeDenominator();
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         };
 
         void computeDenominator()
-- 
2.43.0


From c3ce0846d32d6f0cca836c9fd0f15a861b490d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 33/74] fix: the intersection of two planes was missed when the
 eliminated variable did not vary along it

---
 cmmcore/plane.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index b5f0440..cb8b9f3 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -170,16 +170,17 @@ namespace cmmcore
             double c2 = other.equation.z;
             double d2 = other.equation.w;
 
-            // Choose the variable to eliminate
+            // Choose the variable to eliminate: the line meets the plane on which it vanishes
+            // because the corresponding component of its direction is the largest
             int maxIndex = 0;
-            double maxAbs = std::abs(a1);
+            double maxAbs = std::abs(dir.x);
 
-            if (std::abs(b1) > maxAbs)
+            if (std::abs(dir.y) > maxAbs)
             {
                 maxIndex = 1;
-                maxAbs = std::abs(b1);
+                maxAbs = std::abs(dir.y);
             }
-            if (std::abs(c1) > maxAbs)
+            if (std::abs(dir.z) > maxAbs)
             {
                 maxIndex = 2;
             }
-- 
2.43.0


From fb550ba7758855fb001939f6fbcfc4b06136913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 34/74] fix: isPtsCoplanar skipped the fourth point and failed
 when the first three points are collinear

---
 cmmcore/plane.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index cb8b9f3..0d66abb 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -293,10 +293,26 @@ namespace cmmcore
         {
             return true;
         }
-        plane p = {{pts[0], pts[1], pts[2]}};
+        // Three points that span a plane: the first one, the first one distinct from it,
+        // and the first one off the line through both
+        size_t j = 1;
+        while (j < pts.size() && (pts[j] - pts[0]).sqLength() == 0)
+        {
+            j++;
+        }
+        size_t k = j + 1;
+        while (k < pts.size() && (pts[j] - pts[0]).cross(pts[k] - pts[0]).sqLength() == 0)
+        {
+            k++;
+        }
+        if (k >= pts.size())
+        {
+            return true;
+        }
+        plane p = {{pts[0], pts[j], pts[k]}};
 
 
-        for (size_t i = 4; i < pts.size(); i++)
+        for (size_t i = 0; i < pts.size(); i++)
         {
             if (std::abs(p.signedDistance(pts[i])) >= eps)
             {
-- 
2.43.0


From de9002f917f3d99751661457af7fd552fadca246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 35/74] fix: cplane::signedDistance subtracted the origin twice

---
 cmmcore/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 0d66abb..60c2175 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -342,7 +342,7 @@ namespace cmmcore
             yaxis = normal.cross(xaxis);
             yaxis.unitize();
         };
-        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt - origin); };
+        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt); };
 
         void evaluate(double u, double v, vec3& result) const
         {
-- 
2.43.0


From d868ea217c00207957056cb0105322a04199c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:28 +0000
Subject: [PATCH 36/74] fix: closestPointOnSegm clamped an unnormalised
 parameter and divided by zero for a point segment

---
 cmmcore/closest_point.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index 72bd767..2f0ffa0 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -46,13 +46,15 @@ namespace cmmcore{
     {
         vec3 d=end-start;
         vec3 o=a-start;
-        double t=d.dot(o);
+        const double dd=d.sqLength();
+        // parameter of the projection (the segment may be a single point)
+        double t=dd>0. ? d.dot(o)/dd : 0.;
 
-        if (t<0.)
+        if (t<=0.)
         {
             result.set(start);
 
-        } else if (t>1.)
+        } else if (t>=1.)
         {
             result.set(end);
         } else
@@ -71,7 +73,9 @@ namespace cmmcore{
     // Closest point on the segment (a,b) to the point (0.,0.,0.)
     inline vec3 closestPointOnSegm(const vec3& a, const vec3& b) {
         const vec3 ab = b - a;
-        double t = -(a.dot(ab)) / ab.sqLength();
+        const double dd = ab.sqLength();
+        if (dd == 0.0) return a;
+        double t = -(a.dot(ab)) / dd;
         t = std::clamp<double>(t, 0.0, 1.0);
         return a + ab * t;
     }
-- 
2.43.0


From 05b1bad10e4d5c3b81d69e5e1cecc22261208889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:28 +0000
Subject: [PATCH 37/74] fix: closestPointOnTriangle for an arbitrary point
 returned an offset instead of the point

---
 cmmcore/closest_point.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index 2f0ffa0..d3316bc 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -128,6 +128,7 @@ namespace cmmcore{
     inline void closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c,vec3& result)
     {
         result.set(closestPointOnTriangle(a-pt,b-pt,c-pt));
+        result+=pt;
 
     }
     inline vec3 closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c)
-- 
2.43.0


From 3cd8a3a73caaa9e2425cc5ababab0f3b90af62bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:28 +0000
Subject: [PATCH 38/74] fix: closest point on a tetrahedron returned the last
 face instead of the closest one

---
 cmmcore/gjk.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 79921e9..d0eba42 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -171,6 +171,7 @@ inline vec3 closestPointOnSimplex(const std::vector<vec3>& simplex) {
             auto pt=closestPointOnTriangle(simplex[CMMCORE_SIMPLEX_FACES[i][0]], simplex[ CMMCORE_SIMPLEX_FACES[i][1]], simplex[CMMCORE_SIMPLEX_FACES[i][2]]);
             double dst=pt.sqLength();
             if (dst<mindist) {
+              mindist=dst;
               cpt=pt;
             }
             
-- 
2.43.0


From 14117a1de287a47e78472bd703efc8a4fe0ba2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:29 +0000
Subject: [PATCH 39/74] fix: the 2D hull of collinear points was empty

---
 cmmcore/_convexhull/convexhull2d.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmmcore/_convexhull/convexhull2d.h b/cmmcore/_convexhull/convexhull2d.h
index 9f1c739..4716dd3 100644
--- a/cmmcore/_convexhull/convexhull2d.h
+++ b/cmmcore/_convexhull/convexhull2d.h
@@ -95,8 +95,11 @@ inline std::vector<vec2> convex_hull2d(std::vector<vec2>& points) {
         m++;
     }
 
-    // If modified array of points has less than 3 points, convex hull is not possible
-    if (m < 3) return {};
+    // All points are collinear (or equal): the hull is the segment between the extreme points (or a point)
+    if (m < 3) {
+        if (distSq(points[0], points[1]) == 0) return {points[0]};
+        return {points[0], points[1]};
+    }
 
     // Create an empty stack and push first three points to it.
     std::vector<vec2> hull;
-- 
2.43.0


From 78e586e223ef5043b11093e3581a7bb8d7c4a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:29 +0000
Subject: [PATCH 40/74] fix: hulls of planar point sets were projected along z
 whatever their plane and reported as volumes

---
 cmmcore/convexhull.h | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/cmmcore/convexhull.h b/cmmcore/convexhull.h
index d2dc85f..f65f82a 100644
--- a/cmmcore/convexhull.h
+++ b/cmmcore/convexhull.h
@@ -18,22 +18,40 @@ namespace cmmcore {
             return ConvexHullResult::EMPTY;
         }
         const size_t pts_length=pts1.size();
-        if (isPtsCoplanar(pts1)) {
-            if (pts_length> 3) {
-                std::vector<vec2> _pt1(pts_length);
-                for (size_t i = 0; i < pts_length; i++) {
-                    _pt1[i].set(pts1[i].x, pts1[i].y);
+        const bool flat = isPtsCoplanar(pts1);
+        pts1hull.clear();
+        if (flat) {
+            // Drop the coordinate along which the points project to the largest area
+            // (for collinear points: keep the coordinate with the largest extent)
+            vec3 normal(0, 0, 0), span(0, 0, 0);
+            for (size_t i = 1; i < pts_length; i++) {
+                const vec3 d = pts1[i] - pts1[0];
+                for (int k = 0; k < 3; k++) span[k] = std::max(span[k], std::abs(d[k]));
+                for (size_t j = i + 1; j < pts_length; j++) {
+                    const vec3 n = d.cross(pts1[j] - pts1[0]);
+                    if (n.sqLength() > normal.sqLength()) normal = n;
                 }
-                auto hull12d = convex_hull2d(_pt1);
-                pts1hull.reserve(hull12d.size());
-                for (auto &i: hull12d) {
-                    auto res = std::find(pts1.begin(), pts1.end(), i);
-                    pts1hull.emplace_back(*res);
+            }
+            const bool line = normal.sqLength() == 0;
+            int drop = 0;
+            for (int k = 1; k < 3; k++) {
+                if (line ? span[k] < span[drop] : std::abs(normal[k]) > std::abs(normal[drop])) drop = k;
+            }
+            const int a = (drop + 1) % 3, b = (drop + 2) % 3;
+            std::vector<vec2> _pt1(pts_length);
+            for (size_t i = 0; i < pts_length; i++) {
+                _pt1[i].set(pts1[i][a], pts1[i][b]);
+            }
+            std::vector<vec2> sorted = _pt1;
+            auto hull12d = convex_hull2d(sorted);
+            pts1hull.reserve(hull12d.size());
+            for (auto &h: hull12d) {
+                for (size_t i = 0; i < pts_length; i++) {
+                    if (_pt1[i].x == h.x && _pt1[i].y == h.y) {
+                        pts1hull.emplace_back(pts1[i]);
+                        break;
+                    }
                 }
-            } else {
-                pts1hull.resize(pts_length);
-                   memcpy(pts1hull.data(), pts1.data(),  pts_length * sizeof(vec3));
-
             }
         } else {
             convex_hull3d(pts1, pts1hull);
@@ -41,8 +59,7 @@ namespace cmmcore {
         switch (pts1hull.size()) {
             case 1: return ConvexHullResult::POINT;
             case 2: return ConvexHullResult::LINE;
-            case 3: return ConvexHullResult::FLAT;
-            default: return ConvexHullResult::VOLUME;
+            default: return flat ? ConvexHullResult::FLAT : ConvexHullResult::VOLUME;
 
         }
     }
-- 
2.43.0


From d22d08e350e09165d3ecd2c51cb4046fe1d93736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:40 +0000
Subject: [PATCH 41/74] fix: GJK dropped the wrong simplex vertices and could
 cycle, reporting distant sets as colliding

---
 cmmcore/gjk.h | 57 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index d0eba42..254ebc6 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -74,17 +74,17 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             vec3 ao = -a;
             vec3 abc = ab.cross(ac);
 
-            vec3 abPerp = abc.cross(ac);
-            vec3 acPerp = ab.cross(abc);
+            vec3 abPerp = ab.cross(abc);
+            vec3 acPerp = abc.cross(ac);
 
-            if (abPerp.dot(ao) > tol) {
-                // Region outside AB
-                simplex.erase(simplex.begin());
-                direction = abPerp;
-            } else if (acPerp.dot(ao) > tol) {
-                // Region outside AC
-                simplex.erase(simplex.begin() + 1);
-                direction = acPerp;
+            if (abPerp.dot(ao) > tol || acPerp.dot(ao) > tol) {
+                // Region outside AB or AC: continue with the closest of the two edges
+                if (closestPointOnSegm(a, b).sqLength() <= closestPointOnSegm(a, c).sqLength()) {
+                    simplex.erase(simplex.begin());
+                } else {
+                    simplex.erase(simplex.begin() + 1);
+                }
+                return handleSimplex(simplex, direction, tol);
             } else {
                 if (abc.dot(ao) > tol) {
                     // Origin is below the triangle
@@ -113,23 +113,34 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             vec3 acd = ac.cross(ad);
             vec3 adb = ad.cross(ab);
 
+            // Of the faces that see the origin, keep the closest one
+            // (removing point D, B or C respectively)
+            int removed = -1;
+            double closest = std::numeric_limits<double>::max();
             if (abc.dot(ao) > 0) {
-                // Remove point D
-                simplex.erase(simplex.begin());
-                direction = abc;
-            } else if (acd.dot(ao) > 0) {
-                // Remove point B
-                simplex.erase(simplex.begin() + 2);
-                direction = acd;
-            } else if (adb.dot(ao) > 0) {
-                // Remove point C
-                simplex.erase(simplex.begin() + 1);
-                direction = adb;
-            } else {
+                closest = closestPointOnTriangle(a, b, c).sqLength();
+                removed = 0;
+            }
+            if (acd.dot(ao) > 0) {
+                const double dist = closestPointOnTriangle(a, c, d).sqLength();
+                if (dist < closest) {
+                    closest = dist;
+                    removed = 2;
+                }
+            }
+            if (adb.dot(ao) > 0) {
+                const double dist = closestPointOnTriangle(a, d, b).sqLength();
+                if (dist < closest) {
+                    closest = dist;
+                    removed = 1;
+                }
+            }
+            if (removed < 0) {
                 // Origin is inside the tetrahedron
                 return true;
             }
-            break;
+            simplex.erase(simplex.begin() + removed);
+            return handleSimplex(simplex, direction, tol);
         }
         default:
             throw std::invalid_argument("Invalid simplex size " + std::to_string(simplex.size()));
-- 
2.43.0


From 0b7e97074e26208d83dcff836eee1b0dc3c62612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:40 +0000
Subject: [PATCH 42/74] fix: SAT2D used the edge normals of the first polygon
 only, so disjoint polygons were not separated

---
 cmmcore/separability.h | 58 ++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index c80cbe9..939e4d0 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -50,48 +50,34 @@ namespace cmmcore
     {
       return b!=a;
     }
-    if (a.size()<2)
-    {
-      for (size_t i = 0; i <b.size(); i++)
-      {
-        size_t j = (i + 1) % b.size();
-        vec2 n = {b[j].y - b[i].y, b[i].x - b[j].x};
-
-        if (contains(normals, n)) {
-          continue;
-        }
-        vec2 minmax1, minmax2;
-
-        polygonProject(a, n, minmax1);
-        polygonProject(b, n, minmax2);
-
-        if (auto [m1,m2] = swapIntervals(minmax1, minmax2); m1.y < m2.x) {
-          return true;
-        };
-
-
-        normals.insert(n);
+    // true if the projections of both polygons on the axis n are disjoint
+    auto separatedAlong = [&](const vec2 &n) {
+      if (contains(normals, n)) {
+        return false;
       }
-    } else
+      vec2 minmax1, minmax2;
+      polygonProject(a, n, minmax1);
+      polygonProject(b, n, minmax2);
+      normals.insert(n);
+      auto [m1,m2] = swapIntervals(minmax1, minmax2);
+      return m1.y < m2.x;
+    };
+    // The edge normals of both polygons; a segment can also be separated along its own direction
+    for (const polygon2 *p: {&a, &b})
     {
-      for (size_t i = 0; i < a.size(); i++)
+      if (p->size() < 2) {
+        continue;
+      }
+      for (size_t i = 0; i < p->size(); i++)
       {
-        size_t j = (i + 1) % a.size();
-        vec2 n = {a[j].y - a[i].y, a[i].x - a[j].x};
-
-        if (contains(normals, n)) {
+        size_t j = (i + 1) % p->size();
+        const vec2 e = {(*p)[j].x - (*p)[i].x, (*p)[j].y - (*p)[i].y};
+        if (e.x == 0 && e.y == 0) {
           continue;
         }
-        vec2 minmax1, minmax2;
-        polygonProject(a, n, minmax1);
-        polygonProject(b, n, minmax2);
-
-        if (auto [m1,m2] = swapIntervals(minmax1, minmax2); m1.y < m2.x) {
+        if (separatedAlong({e.y, -e.x}) || (p->size() == 2 && separatedAlong(e))) {
           return true;
-        };
-
-
-        normals.insert(n);
+        }
       }
     }
     return false;
-- 
2.43.0


From 5d1ead07d3bb2c7c37439758d1c9dcf4ff3e251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:26 +0000
Subject: [PATCH 43/74] fix: direction sets were declared separable from planar
 images of the sphere that do not preserve convexity

---
 cmmcore/separability.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index 939e4d0..a234c88 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -345,7 +345,24 @@ inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3
    //   printf("BBB");
    //   return true;
     //}
-    return SphericalCentralProjectionTest(pts1,pts2);
+    // A plane through the origin separates the two sets of directions exactly if the origin is not
+    // in the convex hull of the first set and the opposite of the second one. (Separability of the
+    // planar images of the central projection from the pole does not imply this: it maps the arcs
+    // of great circles to circular arcs, which leave the convex hull of their end points.)
+    std::vector<vec3> directions;
+    directions.reserve(pts1.size()+pts2.size());
+    for (const auto& p:pts1)
+    {
+      directions.push_back(p.unit());
+    }
+    for (const auto& p:pts2)
+    {
+      directions.push_back(-p.unit());
+    }
+    const std::vector<vec3> origin{vec3(0,0,0)};
+    std::vector<vec3> simplex;
+    vec3 closest;
+    return !GJK(directions,origin,simplex,closest);
 
   }
 
-- 
2.43.0


From 157f6488a3747ee7efa74e8f2b3d2ba05cb84f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:55 +0000
Subject: [PATCH 44/74] fix: the axes of a coordinate plane whose first point
 is the foot of the perpendicular from the origin were NaN

---
 cmmcore/plane.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 60c2175..492bbf8 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -337,7 +337,9 @@ namespace cmmcore
 
         cplane(const std::tuple<vec3, vec3, vec3>& _pts): plane(_pts)
         {
-            xaxis = std::get<0>(_pts) - origin;
+            // (the first point can be the foot of the perpendicular from the world origin)
+            origin.set(std::get<0>(_pts));
+            xaxis = std::get<1>(_pts) - origin;
             xaxis.unitize();
             yaxis = normal.cross(xaxis);
             yaxis.unitize();
-- 
2.43.0


From b4a2b346a86570af5e56f1646725f33fd42a7148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:25 +0000
Subject: [PATCH 45/74] fix: whether a 3D hull is lower-dimensional was read
 from an uninitialised flag, so hulls lost extreme points at random

---
 cmmcore/_convexhull/quickhull.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index c412040..077d5d8 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -76,8 +76,8 @@ namespace cmmcore {
         matrix matrix_;
         matrix det_matrix_;
         matrix shadow_matrix_;
-        size_type affine_dim_; // New member variable to store the affine dimension
-        bool lower_dimensional_hull_; // Flag to indicate a lower-dimensional hull
+        size_type affine_dim_ = 0; // New member variable to store the affine dimension
+        bool lower_dimensional_hull_ = false; // Flag to indicate a lower-dimensional hull
 
     public :
         quick_hull(size_type, value_type const &&) = delete; // bind eps to lvalue only
-- 
2.43.0


From befbb578c292ac835a801d77591d72054e34dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:25 +0000
Subject: [PATCH 46/74] fix: the 2D hull of two equal points was a segment

---
 cmmcore/_convexhull/convexhull2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/_convexhull/convexhull2d.h b/cmmcore/_convexhull/convexhull2d.h
index 4716dd3..1bc650d 100644
--- a/cmmcore/_convexhull/convexhull2d.h
+++ b/cmmcore/_convexhull/convexhull2d.h
@@ -63,6 +63,7 @@ public:
 
 // Prints convex hull of a set of n points.
 inline std::vector<vec2> convex_hull2d(std::vector<vec2>& points) {
+    if (points.size() == 2 && distSq(points[0], points[1]) == 0) return {points[0]};
     if (points.size() < 3) return points;  // Convex hull not possible with less than 3 points
 
     int n = points.size();
-- 
2.43.0


From 7cb79b12d928247a96d1d290770bdf08b9f5392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:25 +0000
Subject: [PATCH 47/74] fix: the 3D hull of a planar set was the first affine
 basis found (or empty), so separation tests of planar sets crashed or ignored
 points

---
 cmmcore/_convexhull/quickhull.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index 077d5d8..c47210f 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -1083,15 +1083,12 @@ namespace cmmcore {
         //}    std::cout <<"]\n";
 
 
-        if (initial_simplex.size() < 4) {
-            hull.clear();
-            hull.reserve(initial_simplex.size());
-            for (const auto &p: initial_simplex) {
-                hull.emplace_back(*p);
-            }
+        if (initial_simplex.size() < 4 ||
+            qh.create_initial_simplex(std::cbegin(initial_simplex), std::prev(std::cend(initial_simplex))) == 0) {
+            // The points do not span the space: the simplex does not bound them, keep them all
+            hull.assign(pts.begin(), pts.end());
             return;
         }
-        qh.create_initial_simplex(std::cbegin(initial_simplex), std::prev(std::cend(initial_simplex)));
         qh.create_convex_hull();
 
         // Extract the convex hull points
-- 
2.43.0


From 34ffbc500a7a3d2c63dda4ce782291a79c5ec6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 48/74] fix: the test for a degenerate initial simplex ignored
 the extent, so hulls of planar sets failed an assertion or degenerated

---
 cmmcore/_convexhull/quickhull.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index c47210f..1add5a6 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -829,8 +829,23 @@ namespace cmmcore {
                 divide(inner_point_, value_type(num_points + 1));
             }
             value_type const volume_ = hypervolume(first, last);
+            // the rounding error of the volume grows with the extent of the simplex
+            value_type tolerance_ = eps; {
+                value_type extent_ = zero;
+                for (auto it = first; it != last; ++it) {
+                    auto y = std::cbegin(**last);
+                    for (auto x = std::cbegin(**it); x != std::cend(**it); ++x, ++y) {
+                        extent_ = std::max<value_type>(extent_, std::abs(*x - *y));
+                    }
+                }
+                value_type power_ = value_type(16) * eps;
+                for (size_type i = 0; i < dimension_; ++i) {
+                    power_ *= extent_;
+                }
+                tolerance_ = std::max(tolerance_, power_);
+            }
 
-            if (std::abs(volume_) < eps) {
+            if (std::abs(volume_) < tolerance_) {
                 // The points are affinely dependent, the convex hull is lower-dimensional
                 lower_dimensional_hull_ = true;
                 affine_dim_ = num_points - 1;
-- 
2.43.0


From 2ec8254f98302725d62529e7f2f85a5efad7552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 49/74] fix: the initializer-list constructor of Matrix2x2
 ignored its values

---
 cmmcore/matrix.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmmcore/matrix.h b/cmmcore/matrix.h
index e6acf76..83c3034 100644
--- a/cmmcore/matrix.h
+++ b/cmmcore/matrix.h
@@ -31,7 +31,22 @@ private:
     std::array<std::array<double, 2>, 2> _m{};
 public:
     Matrix2x2() = default;
-    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr){};
+    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr)
+    {
+        size_t i = 0;
+        for (const auto& row : arr)
+        {
+            size_t j = 0;
+            for (const double value : row)
+            {
+                if (i > 1 || j > 1) {
+                    throw std::invalid_argument("A 2x2 matrix takes two rows of two values.");
+                }
+                _m[i][j++] = value;
+            }
+            ++i;
+        }
+    };
     Matrix2x2(std::array<double,2>& ab, std::array<double,2>& cd)
     {
         _m[0][0]=ab[0];
-- 
2.43.0


From 6b9528dda563da5341c5df4465d1b61ed73024de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 50/74] fix: vectorColumn sized the column by the number of
 columns and wrote past its end

---
 cmmcore/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index 1dfbe74..c46c789 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -32,7 +32,7 @@ namespace cmmcore {
 
     template <typename T>
     void vectorColumn(const std::vector<std::vector<T>>& matrix, const  size_t columnIndex,std::vector<T>& column) {
-        column.resize(matrix[0].size());
+        column.resize(matrix.size());
         size_t i=0;
         for (const auto& row : matrix) {
 
-- 
2.43.0


From af7839cd9dba976bb70ad9add03d4eeb3f467af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 51/74] fix: assigning a Monomial2D left the conversion
 matrices of the old value

---
 cmmcore/monomial.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 8f2fe7c..6c35113 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -252,6 +252,8 @@ namespace cmmcore
             if (this == &other) return *this; // Handle self-assignment
             n = other.n, m = other.m;
             coefficients = other.coefficients;
+            Mu = other.Mu, Mv = other.Mv;
+            Mu_inv = other.Mu_inv, Mv_inv = other.Mv_inv;
             return *this;
         }
     };
-- 
2.43.0


From b5c5c7f2f389c27e4d8ebdf2a09b8e7c86e00d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 52/74] fix: the keys of the segment end index overflowed int
 for ordinary coordinates and ends were never removed from it

---
 cmmcore/polyline.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cmmcore/polyline.h b/cmmcore/polyline.h
index 6c82be3..0d8fa1c 100644
--- a/cmmcore/polyline.h
+++ b/cmmcore/polyline.h
@@ -26,6 +26,8 @@ SOFTWARE.
 #include <iostream>
 #include <vector>
 #include <list>
+#include <algorithm>
+#include <unordered_map>
 #include <unordered_set>
 #include <cmath>
 #include <limits>
@@ -42,15 +44,15 @@ const double eps = std::numeric_limits<double>::epsilon();
 
 // Quantization function for spatial hashing
 struct PointKey {
-    int x, y, z;
+    double x, y, z; // whole numbers of eps; they do not fit an integer type
     PointKey() = default;
     PointKey(double x, double y, double z) : x(x), y(y), z(z) {}
 
 
       PointKey(const vec3& point) {
-        x = static_cast<int>(std::floor(point.x / eps + 0.5));
-        y = static_cast<int>(std::floor(point.y / eps + 0.5));
-        z = static_cast<int>(std::floor(point.z / eps + 0.5));
+        x = std::floor(point.x / eps + 0.5);
+        y = std::floor(point.y / eps + 0.5);
+        z = std::floor(point.z / eps + 0.5);
     }
 
 
@@ -62,9 +64,10 @@ struct PointKey {
 // Custom hash function for PointKey
 struct PointKeyHash {
     std::size_t operator()(const PointKey& key) const {
-        return (static_cast<std::size_t>(key.x) * 73856093) ^
-               (static_cast<std::size_t>(key.y) * 19349663) ^
-               (static_cast<std::size_t>(key.z) * 83492791);
+        const std::hash<double> h;
+        return (h(key.x) * 73856093) ^
+               (h(key.y) * 19349663) ^
+               (h(key.z) * 83492791);
     }
 };
 
@@ -92,7 +95,7 @@ void add_to_index(SpatialIndex& index, Endpoint* endpoint) {
 
 // Function to remove an endpoint from the spatial index
 void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
-    PointKey key={endpoint->point.x, endpoint->point.y, endpoint->point.z};
+    PointKey key(endpoint->point);
     auto& vec = index[key];
     vec.erase(std::remove(vec.begin(), vec.end(), endpoint), vec.end());
     if (vec.empty()) {
-- 
2.43.0


From e91571b1fab08dd9e53a5d387317c3bb8ecb3b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:06 +0000
Subject: [PATCH 53/74] fix: length integrates each knot span on its own
 (adaptive rule across a speed jump accepted a wrong length)

---
 cmmcore/nurbs.h | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 9846c3e..62cde04 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -347,19 +347,34 @@ namespace cmmcore {
 
 
         double length(const double t0, const double t1, const double tol = CMMCORE_NURBS_INTEGRATION_TOL) const {
-            double result = 0.0;
-            double error = 0.0;
-
-            integrate([this](const double t)-> double {
-                          vec3 der;
-                          derivative(t, der);
-                          return der.length();
-                      },
-                      t0, t1,
-                      result,
-                      error, tol);
+            // The speed is smooth only between knots: an adaptive rule applied across a jump
+            // can accept a wrong estimate by coincidence, so each span is integrated separately.
+            const double a = std::min(t0, t1);
+            const double b = std::max(t0, t1);
+            double total = 0.0;
+            double start = a;
+            auto add_span = [&](const double end) {
+                double result = 0.0;
+                double error = 0.0;
+                integrate([this](const double t)-> double {
+                              vec3 der;
+                              derivative(t, der);
+                              return der.length();
+                          },
+                          start, end,
+                          result,
+                          error, tol);
+                total += result;
+                start = end;
+            };
+            for (const double knot: knots) {
+                if (knot > start && knot < b) {
+                    add_span(knot);
+                }
+            }
+            add_span(b);
 
-            return result;
+            return t1 < t0 ? -total : total;
         }
 
         double length(const double t, const double tol = CMMCORE_NURBS_INTEGRATION_TOL) const {
-- 
2.43.0


From d92ae4357c4833f41c57f62d6fdc7adbd3bd37c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:54 +0000
Subject: [PATCH 54/74] fix: monomial results reuse: no stale rows, zero
 derivative of constants, bounding box after to_bezier

---
 cmmcore/monomial.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 6c35113..706867b 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -31,7 +31,8 @@ namespace cmmcore
     template <typename T>
     using Tensor2D = std::vector<std::vector<T>>;
 #define CMMCORE_CREATE_TENSOR2D(n,m,typ,...) std::vector(n, std::vector<typ>(m, {__VA_ARGS__}))
-#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.resize(n, std::vector<typ>(m, {__VA_ARGS__}))
+// assign, not resize: rows and values left from an earlier use must not survive
+#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.assign(n, std::vector<typ>(m, {__VA_ARGS__}))
 
     template <typename T>
     inline void getVectorTensor2DComponent(Tensor2D<T>& arr, int component, MatrixD& result)
@@ -68,6 +69,12 @@ namespace cmmcore
         int n = coeffs.size();
         int m = coeffs[0].size();
 
+        // A polynomial of degree zero in this variable has the derivative zero
+        if ((variable == SurfaceParameter::U ? n : m) < 2)
+        {
+            CMMCORE_RESIZE_TENSOR2D(result, n, m, vec3, 0, 0, 0);
+            return;
+        }
 
         if (variable == SurfaceParameter::U)
         {
@@ -227,7 +234,7 @@ namespace cmmcore
             surf.generate_knots_u();
             surf.generate_knots_v();
             surf.update_interval();
-
+            surf._aabb = surf.bbox();
 
         }
 
-- 
2.43.0


From b450d76419e4c246cada26f07e9639f226e267d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:37 +0000
Subject: [PATCH 55/74] fix: point inversion returns its last iterate, stays in
 the domain and checks convergence in both directions

---
 cmmcore/point_inversion.h | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/cmmcore/point_inversion.h b/cmmcore/point_inversion.h
index f3b60fc..e10f204 100644
--- a/cmmcore/point_inversion.h
+++ b/cmmcore/point_inversion.h
@@ -46,6 +46,7 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
     vec3 C_point, C_prime, C_double_prime;
     
     // Get initial point on curve and derivatives
+    u0 = std::min(std::max(u0, curve._interval[0]), curve._interval[1]);
     curve.evaluate(u0, C_point);
     curve.derivative(u0, C_prime);
     curve.second_derivative_fdm(u0, C_double_prime);
@@ -64,11 +65,13 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
             break;
         }
         
-        // Newton step
-        double ui1 = ui - fi / fpi;
+        // Newton step, kept inside the domain
+        double ui1 = std::min(std::max(ui - fi / fpi, curve._interval[0]), curve._interval[1]);
+        double change = std::abs(ui1 - ui) * C_prime.length();
+        ui = ui1;
         
         // Convergence check 1: Parameter change small enough
-        if (std::abs(ui1 - ui) * C_prime.length() <= tol1) {
+        if (change <= tol1) {
             break;
         }
         
@@ -90,7 +93,6 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
         }
         
         curve.second_derivative_fdm(ui1, C_double_prime);
-        ui = ui1;
     }
     
     return ui;
@@ -113,7 +115,11 @@ std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const
                                            double tol1, double tol2,
                                            int max_iter = 100) {
     // Initialize current parameter point
-    std::array<double,2> uivi = {u0, v0};
+    const auto& interval = surface._interval;
+    std::array<double,2> uivi = {
+        std::min(std::max(u0, interval[0][0]), interval[0][1]),
+        std::min(std::max(v0, interval[1][0]), interval[1][1])
+    };
     std::array<double,2> delta = {0.0, 0.0};
     
     // Temporary storage for evaluated points/derivatives
@@ -145,17 +151,18 @@ std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const
             throw std::runtime_error("Failed to solve 2x2 system in surface inversion");
         }
         
-        // Update parameters
+        // Update parameters, kept inside the domain
         std::array<double,2> ui1vi1 = {
-            uivi[0] - delta[0],
-            uivi[1] - delta[1]
+            std::min(std::max(uivi[0] - delta[0], interval[0][0]), interval[0][1]),
+            std::min(std::max(uivi[1] - delta[1], interval[1][0]), interval[1][1])
         };
+        double change = (du * (ui1vi1[0] - uivi[0]) + dv * (ui1vi1[1] - uivi[1])).length();
+        uivi = ui1vi1;
         
         // Check convergence criteria
         
         // 1. Parameter update small enough?
-        if ((ui1vi1[0] - uivi[0]) * du.length() + 
-            (ui1vi1[1] - uivi[1]) * dv.length() <= tol1) {
+        if (change <= tol1) {
             break;
         }
         
@@ -167,13 +174,12 @@ std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const
         
         // 3. Perpendicularity condition met?
         surface.derivative_u(ui1vi1[0], ui1vi1[1], du);
+        surface.derivative_v(ui1vi1[0], ui1vi1[1], dv);
         vec3 pt_diff = S_point - P;
-        if (std::abs(du.dot(pt_diff)) / 
-            (du.length() * pt_diff.length()) <= tol2) {
+        if (std::abs(du.dot(pt_diff)) <= tol2 * du.length() * pt_diff.length() &&
+            std::abs(dv.dot(pt_diff)) <= tol2 * dv.length() * pt_diff.length()) {
             break;
         }
-        
-        uivi = ui1vi1;
     }
     
     return uivi;
-- 
2.43.0


From e8637c8847aa8449261ec164a9d307a3e873bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 56/74] fix: toSTEP closes the argument list of
 PRODUCT_RELATED_PRODUCT_CATEGORY

---
 cmmcore/nurbs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 62cde04..8372ddd 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1502,7 +1502,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
     // Create PRODUCT_RELATED_PRODUCT_CATEGORY entity
     int product_related_category_id = entity_id++;
-    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_definition_formation_id << ");\n";
+    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_definition_formation_id << "));\n";
 
     // Create APPLICATION_PROTOCOL_DEFINITION entity
     int application_protocol_def_id = entity_id++;
-- 
2.43.0


From 819f07e65716cbcd4b85096cdcffa2bff163e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 57/74] fix: NURBSCurve::toSTEP writes Euclidean control points
 (weights are stated separately)

---
 cmmcore/nurbs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 8372ddd..90dfc91 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -687,13 +687,13 @@ namespace cmmcore {
          * @return The STEP entity ID of the created B-spline curve.
          */
 int toSTEP(std::ostream &out, int &entity_id) const {
-            // Write CARTESIAN_POINT entities with homogeneous coordinates
+            // Write CARTESIAN_POINT entities with normalized coordinates
             std::vector<int> cp_ids(control_points.size());
             for (size_t i = 0; i < control_points.size(); ++i) {
                 const vec4 &cp = control_points[i];
                 cp_ids[i] = entity_id;
                 out << "#" << entity_id++ << " = CARTESIAN_POINT('', ("
-                    << cp.x << ", " << cp.y << ", " << cp.z << "));\n";
+                    << cp.x / cp.w << ", " << cp.y / cp.w << ", " << cp.z / cp.w << "));\n";
             }
 
             // Get knot multiplicities and unique knots
-- 
2.43.0


From 6602a2de4aff141c3ea327ea18310c48323f02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 58/74] fix: toSTEP writes reals with a decimal point and all
 digits

---
 cmmcore/nurbs.h | 10 +++++-----
 cmmcore/utils.h | 21 ++++++++++++++++++++-
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 90dfc91..aabe6f3 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -693,7 +693,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 const vec4 &cp = control_points[i];
                 cp_ids[i] = entity_id;
                 out << "#" << entity_id++ << " = CARTESIAN_POINT('', ("
-                    << cp.x / cp.w << ", " << cp.y / cp.w << ", " << cp.z / cp.w << "));\n";
+                    << stepNumber(cp.x / cp.w) << ", " << stepNumber(cp.y / cp.w) << ", " << stepNumber(cp.z / cp.w) << "));\n";
             }
 
             // Get knot multiplicities and unique knots
@@ -705,7 +705,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             std::stringstream weights_stream;
             weights_stream << "(";
             for (size_t i = 0; i < control_points.size(); ++i) {
-                weights_stream << control_points[i].w;
+                weights_stream << stepNumber(control_points[i].w);
                 if (i < control_points.size() - 1) weights_stream << ", ";
             }
             weights_stream << ")";
@@ -1334,7 +1334,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             double z = cp.z / cp.w;
             int id = entity_id++;
             cp_ids[i][j] = id;
-            out << "#" << id << " = CARTESIAN_POINT('', (" << x << ", " << y << ", " << z << "));\n";
+            out << "#" << id << " = CARTESIAN_POINT('', (" << stepNumber(x) << ", " << stepNumber(y) << ", " << stepNumber(z) << "));\n";
         }
     }
 
@@ -1373,7 +1373,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         weights_stream << "(";
         for (std::size_t j = 0; j < _size[1]; ++j) {
             double w = _control_points[i][j].w;
-            weights_stream << w;
+            weights_stream << stepNumber(w);
             if (j < _size[1] - 1)
                 weights_stream << ", ";
         }
@@ -1409,7 +1409,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         double param = (i < 2) ? boundaries[i].interval()[0] : boundaries[i].interval()[1];
         boundaries[i].evaluate(param, point);
         int cartesian_id = entity_id++;
-        out << "#" << cartesian_id << " = CARTESIAN_POINT('', (" << point.x << ", " << point.y << ", " << point.z << "));\n";
+        out << "#" << cartesian_id << " = CARTESIAN_POINT('', (" << stepNumber(point.x) << ", " << stepNumber(point.y) << ", " << stepNumber(point.z) << "));\n";
         vertex_ids[i] = entity_id++;
         out << "#" << vertex_ids[i] << " = VERTEX_POINT('', #" << cartesian_id << ");\n";
     }
diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index c46c789..90a14ea 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -26,6 +26,11 @@ SOFTWARE.
 #include <chrono>
 #include <random>
 #include <limits>
+#include <algorithm>
+#include <iomanip>
+#include <sstream>
+#include <string>
+#include <type_traits>
 #include "cmmcore/vec.h"
 namespace cmmcore {
 #define EPS_DELTA 1e-12
@@ -129,13 +134,27 @@ inline double calc_epsilon(const double x) noexcept {
         return buf;
     }
 
+    // STEP (ISO 10303-21) literal of a number: reals need a decimal point and all their digits
+    template<typename T>
+    std::string stepNumber(const T value) {
+        std::ostringstream ss;
+        ss << std::setprecision(std::numeric_limits<T>::max_digits10) << value;
+        std::string s = ss.str();
+        if (std::is_floating_point<T>::value && s.find('.') == std::string::npos) {
+            const std::size_t e = s.find('e');
+            s.insert(e == std::string::npos ? s.size() : e, ".");
+        }
+        std::replace(s.begin(), s.end(), 'e', 'E');
+        return s;
+    }
+
     // Helper function to convert a vector to a STEP-formatted string
     template<typename T>
     std::string vectorToString(const std::vector<T>& vec) {
         std::ostringstream ss;
         ss << "(";
         for (std::size_t i = 0; i < vec.size(); ++i) {
-            ss << vec[i];
+            ss << stepNumber(vec[i]);
             if (i < vec.size() - 1)
                 ss << ", ";
         }
-- 
2.43.0


From aebada0c834111c68bef2e9ff5999201ef94179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:24 +0000
Subject: [PATCH 59/74] fix: toSTEP edges join the end points of their boundary
 curves and form an oriented loop

---
 cmmcore/nurbs.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index aabe6f3..a3d4dd4 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1402,26 +1402,33 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         curve_ids[i] = boundaries[i].toSTEP(out, entity_id);
     }
 
-    // Create and write VERTEX_POINT entities for corners
+    // Create and write VERTEX_POINT entities for corners, in the order they are passed
+    // when walking around the domain: (u_min, v_min), (u_max, v_min), (u_max, v_max), (u_min, v_max)
     std::array<int, 4> vertex_ids;
     for (int i = 0; i < 4; ++i) {
         vec3 point;
-        double param = (i < 2) ? boundaries[i].interval()[0] : boundaries[i].interval()[1];
-        boundaries[i].evaluate(param, point);
+        const NURBSCurve &side = boundaries[i < 2 ? 2 : 3];
+        side.evaluate(side.interval()[i == 1 || i == 2], point);
         int cartesian_id = entity_id++;
         out << "#" << cartesian_id << " = CARTESIAN_POINT('', (" << stepNumber(point.x) << ", " << stepNumber(point.y) << ", " << stepNumber(point.z) << "));\n";
         vertex_ids[i] = entity_id++;
         out << "#" << vertex_ids[i] << " = VERTEX_POINT('', #" << cartesian_id << ");\n";
     }
 
-    // Create EDGE_CURVE entities
+    // Create EDGE_CURVE entities in loop order, each along its boundary curve,
+    // and the ORIENTED_EDGE entities that traverse them around the loop
+    const std::array<int, 4> sides = {2, 1, 3, 0};
     std::array<int, 4> edge_ids;
     for (int i = 0; i < 4; ++i) {
-        int next = (i + 1) % 4;
+        const bool forward = i < 2;
+        const int start = vertex_ids[forward ? i : (i + 1) % 4];
+        const int end = vertex_ids[forward ? i + 1 : i];
         int edge_id = entity_id++;
-        out << "#" << edge_id << " = EDGE_CURVE('', #" << vertex_ids[i] << ", #" << vertex_ids[next]
-            << ", #" << curve_ids[i] << ", .T.);\n";
-        edge_ids[i] = edge_id;
+        out << "#" << edge_id << " = EDGE_CURVE('', #" << start << ", #" << end
+            << ", #" << curve_ids[sides[i]] << ", .T.);\n";
+        edge_ids[i] = entity_id++;
+        out << "#" << edge_ids[i] << " = ORIENTED_EDGE('', *, *, #" << edge_id << ", "
+            << (forward ? ".T." : ".F.") << ");\n";
     }
 
     // Create EDGE_LOOP entity
-- 
2.43.0


From 719347405d71463b28f7d8556d9ff0f32ae8ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:24 +0000
Subject: [PATCH 60/74] fix: ccx lost crossings of planar curves whose pieces
 differ by rounding errors

---
 cmmcore/ccx.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmmcore/ccx.h b/cmmcore/ccx.h
index ef226fb..8d8ed1f 100644
--- a/cmmcore/ccx.h
+++ b/cmmcore/ccx.h
@@ -95,7 +95,10 @@ namespace cmmcore {
         auto &bb2 = c2.aabb();
         auto iv1 = c1.interval();
         auto iv2 = c2.interval();
-        if (bb1.intersects(bb2)) {
+        // Two points that coincide on the curves may differ by rounding errors in their split pieces, so
+        // boxes are considered disjoint only when a gap between them is noticeable relative to the tolerance
+        const double gap = 0.01 * tol;
+        if (AABB(bb1.min - gap, bb1.max + gap).intersects(bb2)) {
             if ((bb1.max - bb1.min).length() < tol && (bb2.max - bb2.min).length() < tol) {
                 size_t l = result.size();
                 double _first = 0.5 * (iv1[0] + iv1[1]);
-- 
2.43.0


From 03a2dac8e1bc2f675011ceb90265868cbe660c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:56 +0000
Subject: [PATCH 61/74] fix: splitting or inserting within the tolerance of an
 existing knot corrupted curves and surfaces

---
 cmmcore/nurbs.h       | 10 ++++++++--
 cmmcore/nurbs_utils.h | 20 ++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index a3d4dd4..24fb008 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -248,6 +248,7 @@ namespace cmmcore {
 
         // Insert knots into the curve
         void insert_knot(double t, int count) {
+            t = nearest_knot(t, knots);
             int n = static_cast<int>(control_points.size());
             int new_count = n + count;
             const std::vector<vec4> cpts = control_points;
@@ -272,11 +273,12 @@ namespace cmmcore {
         }
 
         // Split the curve at a given parameter value
-        std::pair<NURBSCurve, NURBSCurve> split(const double param, const bool normalize_knots = false) const {
+        std::pair<NURBSCurve, NURBSCurve> split(double param, const bool normalize_knots = false) const {
             if (param <= _interval[0] || param >= _interval[1] ||
                 std::fabs(param - _interval[0]) <= 1e-12 || std::fabs(param - _interval[1]) <= 1e-12) {
                 throw std::invalid_argument("Cannot split from the domain edge.");
             }
+            param = nearest_knot(param, knots);
             int n_ctrlpts = static_cast<int>(control_points.size());
             auto ks = find_span(n_ctrlpts, _degree, param, knots, false) - _degree + 1;
             int s = find_multiplicity(param, knots);
@@ -870,8 +872,9 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result.normalize();
         }
 
-        void insert_knot(const double t, const int direction, const int count) {
+        void insert_knot(double t, const int direction, const int count) {
             if (direction == 0) {
+                t = nearest_knot(t, _knots_u);
                 int s = find_multiplicity(t, _knots_u);
                 int span = find_span(_control_points.size() - 1, _degree[0], t, _knots_u, false);
 
@@ -905,6 +908,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         }
 
         void insert_knot_v(double t, int count) {
+            t = nearest_knot(t, _knots_v);
             std::size_t new_count_u = _control_points.size();
             std::size_t new_count_v = _control_points[0].size() + count;
             auto cpts = _control_points;
@@ -929,6 +933,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 std::fabs(param - _interval[0][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
             }
+            param = nearest_knot(param, _knots_u);
             int ks = find_span(static_cast<int>(_size[0] - 1), _degree[0], param, _knots_u, false) - _degree[0] + 1;
             int s = find_multiplicity(param, _knots_u);
 
@@ -961,6 +966,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 std::fabs(param - _interval[1][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
             }
+            param = nearest_knot(param, _knots_v);
             int ks = find_span(static_cast<int>(_size[1] - 1), _degree[1], param, _knots_v, false) - _degree[1] + 1;
             int s = find_multiplicity(param, _knots_v);
             int r = _degree[1] - s;
diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 202e09a..0b64460 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -594,6 +594,26 @@ namespace cmmcore {
         return mult;
     }
 
+    /**
+     * @brief Finds the knot that find_multiplicity identifies with the given parameter.
+     *
+     * @param u The parameter.
+     * @param knot_vector The knot vector.
+     * @return The nearest knot within the tolerance of find_multiplicity, or the parameter itself.
+     */
+    inline double nearest_knot(const double u, const std::vector<double> &knot_vector) noexcept {
+        double result = u;
+        double best = 1e-12;
+        for (const auto &kv: knot_vector) {
+            const double difference = std::fabs(u - kv);
+            if (difference <= best) {
+                best = difference;
+                result = kv;
+            }
+        }
+        return result;
+    }
+
     /**
  * @brief Computes the alpha value for knot insertion.
  *
-- 
2.43.0


From 85f15246aac52fadc6b71e05dfa91f8bda1645cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:39 +0000
Subject: [PATCH 62/74] fix: csx dropped pieces that the projection from the
 intersection point does not separate

---
 cmmcore/csx.h          | 10 ++----
 cmmcore/separability.h | 73 +++++++++++-------------------------------
 2 files changed, 20 insertions(+), 63 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index d15354b..97334c7 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -128,20 +128,14 @@ namespace cmmcore {
                         std::vector<vec3> curve_points = curve1.get_control_points3d();
                         std::vector<vec3> surface_points = s.control_points_flat3d();
 
-                        if ( SphericalCentralProjectionTest2(point,curve_points, surface_points)) {
-                            continue;
-
-                        }else{
+                        if (!SphericalCentralProjectionTest2(point,curve_points, surface_points, tolerance)) {
                             _curve_surface_intersect(curve1, s);
 
                     }
                     std::vector<vec3> curve_points2 = curve2.get_control_points3d();
 
 
-                    if ( SphericalCentralProjectionTest2(point,curve_points2, surface_points)) {
-                        continue;
-
-                    }else{
+                    if (!SphericalCentralProjectionTest2(point,curve_points2, surface_points, tolerance)) {
                         _curve_surface_intersect(curve2, s);
 
                     }
diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index a234c88..e99774d 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -397,62 +397,25 @@ inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3
      * сферу.
      * */
 
-  inline bool SphericalCentralProjectionTest2(vec3 origin, std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
-
-    std::vector<vec2> poly1(pts1.size());
-    std::vector<vec2> poly2(pts2.size());
-
-
-    for (size_t i=0;i<pts1.size();i++)
-    {
-
-      centerProjectionToXY(origin, pts1[i].unit(),poly1[i]);
-    }
-    for (size_t j=0;j<pts2.size();j++)
-    {
-      centerProjectionToXY(origin, pts2[j].unit(),poly2[j]);
-
-    }
-
-#ifdef CMMCORE_DEBUG
-    printf("\n\n[");
-    for (auto& p:poly1)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:poly2)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("]\n");
-#endif
-
-    auto h1=convex_hull2d(poly1);
-    auto h2=convex_hull2d(poly2);
-    if (h1.empty())
-    {
-      h1.push_back(poly1[0]);
-    }
-    if (h2.empty())
-    {
-      h2.push_back(poly2[0]);
-    }
-#ifdef CMMCORE_DEBUG
-    printf("[");
-    for (auto& p:h1)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:h2)
-    {
-      printf("[%f,%f],", p.x,p.y);
+  inline bool SphericalCentralProjectionTest2(vec3 origin, std::vector<vec3>& pts1, std::vector<vec3>& pts2, const double tol=std::numeric_limits<double>::epsilon()) {
+    // The directions in which the control points are seen from the origin, without those at the origin itself
+    auto project=[&](const std::vector<vec3>& pts) {
+      std::vector<vec3> directions;
+      directions.reserve(pts.size());
+      for (const auto& p:pts) {
+        const vec3 direction=p-origin;
+        if (direction.length()>tol) {
+          directions.push_back(direction);
+        }
+      }
+      return directions;
+    };
+    std::vector<vec3> directions1=project(pts1);
+    std::vector<vec3> directions2=project(pts2);
+    if (directions1.empty() || directions2.empty()) {
+      return true;
     }
-    printf("]\n");
-#endif
-
-    return SAT2D(h1,h2);
+    return SphericalSeparabilityTest(directions1,directions2);
 
   }
   }
-- 
2.43.0


From 24da186aff1540275e5a8f1517c77954e0bccda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:39 +0000
Subject: [PATCH 63/74] fix: csx lost intersections, or failed, where one lies
 on the edge of a piece

---
 cmmcore/csx.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index 97334c7..b644b56 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -105,17 +105,20 @@ namespace cmmcore {
 
 
 
-                if (_is_degenerate(params, curve, surface)) {
+                if (_is_known(point, params)) {
+                    // Found before from a neighbouring piece
+                } else if (_is_degenerate(params, curve, surface)) {
                     intersections.emplace_back(CSXType::DEGENERATE, point, params);
                 } else {
                     intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
                 }
-                if (std::abs(u - u0) < ptol || std::abs(u - u1) < ptol ||
-                                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol) {
-                    return;
-                                }
-                // Add spherical separability check
-
+                // A piece cannot be split on its edge: use the middle where the intersection lies there
+                const auto inside = [&](const double x, const double a, const double b) {
+                    return x - a < ptol || b - x < ptol ? 0.5 * (a + b) : x;
+                };
+                t = inside(t, curve._interval[0], curve._interval[1]);
+                u = inside(u, u0, u1);
+                v = inside(v, v0, v1);
 
                 // Split curve and surface at intersection point
                 auto [curve1, curve2] = curve.split(t, false); // normalize_knots=false
@@ -192,6 +195,16 @@ namespace cmmcore {
             return std::nullopt;
         }
 
+        bool _is_known(const vec3 &point, const Vector<3> &params) const {
+            for (const auto &[type, other, other_params] : intersections) {
+                if ((other - point).length() <= tolerance && std::abs(other_params[0] - params[0]) <= 10 * ptol &&
+                    std::abs(other_params[1] - params[1]) <= 10 * ptol && std::abs(other_params[2] - params[2]) <= 10 * ptol) {
+                    return true;
+                }
+            }
+            return false;
+        }
+
         bool _is_valid_parameter(const Vector<3> &params, const std::array<double, 2> &curve_interval,
                                  const std::array<std::array<double, 2>, 2> &surface_interval) {
             return (params[0] >= curve_interval[0] && params[0] <= curve_interval[1]) &&
-- 
2.43.0


From 77c99ec0c89a9ca48152cd21a12533e07adf9f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:39 +0000
Subject: [PATCH 64/74] fix: csx lost intersections on the edges of the pieces
 because of rounding errors

---
 cmmcore/csx.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index b644b56..a40ce5d 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -182,6 +182,14 @@ namespace cmmcore {
                                                    (surface._interval[1][0] + surface._interval[1][1]) * 0.5};
 
             auto result = newtonsMethod<3>(equation, initial_guess,ptol, 15);
+            // An intersection on the edge of the pieces must not be lost because of rounding errors
+            const auto to_edge = [&](double &x, const double a, const double b) {
+                if (x < a && a - x <= ptol) { x = a; }
+                if (x > b && x - b <= ptol) { x = b; }
+            };
+            to_edge(result[0], curve._interval[0], curve._interval[1]);
+            to_edge(result[1], surface._interval[0][0], surface._interval[0][1]);
+            to_edge(result[2], surface._interval[1][0], surface._interval[1][1]);
 
             if (_is_valid_parameter(result, curve._interval, surface._interval)) {
                 vec3 curve_pt, surface_pt;
-- 
2.43.0


From d97eb9b2e656c4426bb41747abc2eaad8129b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:54 +0000
Subject: [PATCH 65/74] fix: csx dropped pieces whose projections touch up to
 rounding errors

---
 cmmcore/separability.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index e99774d..a00e071 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -336,7 +336,7 @@ namespace cmmcore
     return SAT2D(h1,h2);
 
     }
-inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
+inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3>& pts2, const double margin=0) {
 
     //printf(("SEPTEST\n\n["+format_vec3vec(pts1)+"],["+format_vec3vec(pts2)+"]").c_str());
    // if (SphericalAABBTest(pts1,pts2))
@@ -362,7 +362,7 @@ inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3
     const std::vector<vec3> origin{vec3(0,0,0)};
     std::vector<vec3> simplex;
     vec3 closest;
-    return !GJK(directions,origin,simplex,closest);
+    return !GJK(directions,origin,simplex,closest) && closest.length()>=margin;
 
   }
 
@@ -415,7 +415,8 @@ inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3
     if (directions1.empty() || directions2.empty()) {
       return true;
     }
-    return SphericalSeparabilityTest(directions1,directions2);
+    // The origin is a computed point: sets that touch up to its rounding errors are not separated
+    return SphericalSeparabilityTest(directions1,directions2,1e-6);
 
   }
   }
-- 
2.43.0


From 3fb6e44b7b256a007762c607bc7b725a5b6a233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:43 +0000
Subject: [PATCH 66/74] fix: findStartIntersectionPoints ignored axis-aligned
 planar surfaces

---
 cmmcore/ssx.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index f92bcfc..db98260 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -204,8 +204,16 @@ namespace cmmcore
         bb1.intersection(bb2, aabb1);
         auto _dims = (aabb1.max - aabb1.min);
 
-        if ((aabb1.volume() < tol || std::abs(_dims.x) <= tol) || (std::abs(_dims.y) <= tol) || (std::abs(_dims.z) <=
-            tol))
+        // Where only one of the surfaces is flat in a dimension the other one can cross it
+        int flat = 0;
+        int crossed = 0;
+        for (size_t i = 0; i < 3; ++i)
+        {
+            flat += std::abs(_dims[i]) <= tol;
+            crossed += (bb1d[i] <= tol) != (bb2d[i] <= tol);
+        }
+
+        if (flat == 0 ? aabb1.volume() < tol : flat != crossed)
         {
 #ifdef CMMCORE_DEBUG
             printf("a surface is planar. depth: %d\n", depth);
-- 
2.43.0


From 70dfc2015ecea2d325eea5603995d10083a544f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 67/74] fix: findStartIntersectionPoints ignored intersections
 in small volumes

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index db98260..66b9614 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -213,7 +213,7 @@ namespace cmmcore
             crossed += (bb1d[i] <= tol) != (bb2d[i] <= tol);
         }
 
-        if (flat == 0 ? aabb1.volume() < tol : flat != crossed)
+        if (flat != crossed)
         {
 #ifdef CMMCORE_DEBUG
             printf("a surface is planar. depth: %d\n", depth);
-- 
2.43.0


From 2f635f70a865c7d0401ee41bbbfda60815775109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 68/74] fix: find_boundary_intersections took points up to 1/15
 apart for duplicates

---
 cmmcore/boundary_intersection.h | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index ae9a1cf..a1ea2a0 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -283,25 +283,17 @@ inline void find_boundary_intersections(
     
     // Remove duplicate points (within tolerance)
 
-    auto unique_points=Vec3Set();
-    const size_t sx=intersection_points.size();
-    for (int i = sx- 1; i >= 0; --i) {
-
-
-        auto& point=intersection_points[i];
-
-        if (!contains(unique_points, point.point))
-        {
-            unique_points.emplace(point.point);
-            continue;
-
+    for (size_t i = intersection_points.size(); i-- > 0;) {
+        const vec3 point = intersection_points[i].point;
+        const bool duplicate = std::any_of(intersection_points.begin() + i + 1, intersection_points.end(),
+                                           [&](const IntersectionPoint& other) {
+                                               return (other.point - point).length() <= tol;
+                                           });
+        if (duplicate) {
+            intersection_points.erase(intersection_points.begin() + i);
         }
-
-        intersection_points.erase(intersection_points.begin()+i);
-
-
     }
-    
+
     //return unique_points;
 }
 
-- 
2.43.0


From a882a0c7cc8f7228f90cc9b2417c60b920e46352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:18 +0000
Subject: [PATCH 69/74] fix: findStartIntersectionPoints kept one branch of the
 intersection of two simple pieces

---
 cmmcore/ssx.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index 66b9614..dc5d7fa 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -127,7 +127,13 @@ namespace cmmcore
         auto n = ixs.size();
         if (n >= 2)
         {
-            intersection.patches.emplace_back(ixs[0], ixs[n - 1]);
+            // There can be several open branches
+            std::vector<std::vector<IntersectionPoint>> branches;
+            sort_boundary_intersections(ixs, branches);
+            for (const auto& branch : branches)
+            {
+                intersection.patches.emplace_back(branch.front(), branch.back());
+            }
         }
 
         else
-- 
2.43.0


From 67ec8671ff25f4d89df94ff5c1807e59ff4e2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:55 +0000
Subject: [PATCH 70/74] fix: surface_deriv_cpts differentiates the requested v
 range, not the first control points

---
 cmmcore/nurbs_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 0b64460..0d04723 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -411,7 +411,7 @@ namespace cmmcore {
 
                 // Extract the control points for the current U-curve
                 for (int j = 0; j <= s; ++j) {
-                    temp_cpts_v[j] = PKL[k][0][i][j];
+                    temp_cpts_v[ss[0] + j] = PKL[k][0][i][j];
                 }
 
                 // Compute derivative control points in V direction
-- 
2.43.0


From 290ce9cff0c330280bad773815d26ff54496ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:56 +0000
Subject: [PATCH 71/74] fix: segmentsDistance measures the segments, not their
 lines

---
 cmmcore/numeric_utils.h | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/cmmcore/numeric_utils.h b/cmmcore/numeric_utils.h
index 888f581..bca962e 100644
--- a/cmmcore/numeric_utils.h
+++ b/cmmcore/numeric_utils.h
@@ -10,8 +10,11 @@
 
 
 
+#include <algorithm>
 #include <cstring>
 namespace cmmcore {
+// Distance between the segments p1-p2 and q1-q2, with a closest pair of points
+// cpt1 = p1 + t * (p2 - p1), cpt2 = q1 + u * (q2 - q1), 0 <= t, u <= 1
 inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,const vec3& q2,
                       double& t,double& u, vec3& cpt1, vec3& cpt2 ){
   auto d1=p2-p1;
@@ -24,12 +27,14 @@ inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,cons
   d = d1.dot( r)    ;
   e = d2.dot( r)    ;
     denom = a * c - b * b;
-   if (denom != 0){
-            t = (b * e - c * d) / denom;
-            u = (a * e - b * d) / denom;
-} else {
-  t = u = 0;
-}
+    // Closest points of the lines, t restricted to the first segment (any t if the lines are parallel)
+    t = denom > 0 ? std::clamp((b * e - c * d) / denom, 0., 1.) : 0.;
+    u = c > 0 ? (b * t + e) / c : 0.;
+    // Where u leaves the second segment, take its end and the closest point to that end
+    if (c <= 0 || u < 0 || u > 1) {
+        u = std::clamp(u, 0., 1.);
+        t = a > 0 ? std::clamp((b * u - d) / a, 0., 1.) : 0.;
+    }
     p1.add(t * d1,cpt1);
     q1.add(u * d2,cpt2);
     auto diffvec=cpt2-cpt1;
@@ -37,25 +42,9 @@ inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,cons
 }
     inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,const vec3& q2
                        ){
-    auto d1=p2-p1;
-    auto d2=q2-q1;
-    auto r=p1-q1;
-    double a,b,c,d,e,denom,t,u;
-    a=d1.dot(d1);
-    b = d1.dot( d2)   ;
-    c = d2.dot( d2)   ;
-    d = d1.dot( r)    ;
-    e = d2.dot( r)    ;
-    denom = a * c - b * b;
-    if (denom != 0){
-        t = (b * e - c * d) / denom;
-        u = (a * e - b * d) / denom;
-    } else {
-        t = u = 0;
-    }
-    auto cpt1=p1+t * d1;
-    auto cpt2=q1+u * d2;
-    return (cpt2-cpt1).length();
+    double t,u;
+    vec3 cpt1,cpt2;
+    return segmentsDistance(p1,p2,q1,q2,t,u,cpt1,cpt2);
 }
 
     inline void centerProjectionToXY(const vec3& origin, const vec3& point, vec2& projected) {
-- 
2.43.0


From 532904d333c733546de9da47eb5536ddfa04e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:35 +0000
Subject: [PATCH 72/74] fix: GJK ignored its tolerance: rounding errors
 separated touching sets, and csx lost crossings at surface corners

---
 cmmcore/gjk.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 254ebc6..6f2af4f 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -246,7 +246,7 @@ inline bool GJK(const std::vector<vec3>&verticesA,
 
     while (iterations++ < maxIterations) {
         point = support(verticesA, verticesB, direction);
-        if (point.dot(direction) < 0) {
+        if (point.dot(direction) < -tolerance * direction.length()) {
             // No collision
             // Compute the closest point to the origin on the simplex
             closestPointToOrigin = closestPointOnSimplex(simplex);
-- 
2.43.0


From d5c11802508a5bf3003922d18f3548049ee3735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:17 +0000
Subject: [PATCH 73/74] fix: the 3D hull took facets coplanar with a new point
 for visible, so it lost extreme points

---
 cmmcore/_convexhull/quickhull.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index 1add5a6..30cdd28 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -650,7 +650,7 @@ namespace cmmcore {
                 return (visible_.count(f) != 0);
             }
             facet &facet_ = facets_[f];
-            if (!(zero < facet_.distance(std::cbegin(*_apex)))) {
+            if (!(eps < facet_.distance(std::cbegin(*_apex)))) {
                 return false;
             }
             visible_.insert(f);
@@ -1071,15 +1071,25 @@ namespace cmmcore {
             return;
         }
         using Points = std::vector<std::array<double, 3> >;
+        // Work relative to the first point and to the extent (a power of two, so that no digit is lost):
+        // the distances of points on the plane of a facet are then rounding errors below eps
+        double extent = 0;
+        for (auto &p: pts) {
+            for (int k = 0; k < 3; ++k) {
+                extent = std::max(extent, std::abs(p[k] - pts[0][k]));
+            }
+        }
+        int exponent = 0;
+        std::frexp(extent, &exponent);
         Points points(pts.size());
         size_t i = 0;
         for (i = 0; i < pts.size(); ++i) {
-            points[i][0] = pts[i].x;
-            points[i][1] = pts[i].y;
-            points[i][2] = pts[i].z;
+            for (int k = 0; k < 3; ++k) {
+                points[i][k] = std::ldexp(pts[i][k] - pts[0][k], -exponent);
+            }
         }
 
-        const auto eps = CMMCORE_NUMERIC_EPSILON_DOUBLE;
+        const auto eps = 4096 * CMMCORE_NUMERIC_EPSILON_DOUBLE;
 
         quick_hull<typename Points::const_iterator> qh{3, eps};
 
@@ -1111,7 +1121,7 @@ namespace cmmcore {
         for (const auto &facet: qh.facets_) {
             for (const auto &vertex: facet.vertices_) {
                 if (unique_points.insert(&(*vertex)[0]).second) {
-                    hull.emplace_back(*vertex);
+                    hull.emplace_back(pts[std::distance(std::cbegin(points), vertex)]);
                 }
             }
         }
-- 
2.43.0


From aff829458e8d0314f562ed49f69a870545d0470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:50 +0000
Subject: [PATCH 74/74] fix: GJK compared products of edge lengths with an
 absolute tolerance, so small disjoint sets were reported as colliding

---
 cmmcore/gjk.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 6f2af4f..08b9768 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -54,7 +54,7 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             vec3 ab = b - a;
             vec3 ao = -a;
 
-            if (ab.dot(ao) > tol) {
+            if (ab.dot(ao) > tol * std::min(1.0, ab.length() * ao.length())) {
                 // Direction is perpendicular to ab towards the origin
                 direction = ab.cross(ao).cross(ab);
             } else {
@@ -77,7 +77,10 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             vec3 abPerp = ab.cross(abc);
             vec3 acPerp = abc.cross(ac);
 
-            if (abPerp.dot(ao) > tol || acPerp.dot(ao) > tol) {
+            // The products scale with the sets: so does the tolerance for small ones
+            const double d = ao.length();
+            if (abPerp.dot(ao) > tol * std::min(1.0, abPerp.length() * d) ||
+                acPerp.dot(ao) > tol * std::min(1.0, acPerp.length() * d)) {
                 // Region outside AB or AC: continue with the closest of the two edges
                 if (closestPointOnSegm(a, b).sqLength() <= closestPointOnSegm(a, c).sqLength()) {
                     simplex.erase(simplex.begin());
@@ -86,7 +89,7 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
                 }
                 return handleSimplex(simplex, direction, tol);
             } else {
-                if (abc.dot(ao) > tol) {
+                if (abc.dot(ao) > tol * std::min(1.0, abc.length() * d)) {
                     // Origin is below the triangle
                     direction = abc;
                 } else {
-- 
2.43.0


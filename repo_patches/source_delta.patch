From cff68766a216555ea1982e3efd8d6ff28b3648c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:45 +0000
Subject: [PATCH 01/27] fix: binomial_law overflows its integer type for large
 orders

---
 gbs/math.ixx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gbs/math.ixx b/gbs/math.ixx
index 4bd6a00..c1f0535 100644
--- a/gbs/math.ixx
+++ b/gbs/math.ixx
@@ -60,14 +60,18 @@
     template <typename T,typename L>
     auto binomial_law(L n, L k) -> T
     {
-        if (k == n)
+        if (k > n)
         {
-            return T(1);
+            return T(0);
         }
-        else
+        // Multiplicative form evaluated in T: the factorials overflow the integer
+        // type L for n > 12 (int) or n > 20 (size_t). Each step is C(k + i, i).
+        T b = T(1);
+        for (L i = 1; i <= n - k; ++i)
         {
-            return T(factorial(n)) / T(factorial(k) * factorial(n - k));
+            b = b * T(k + i) / T(i);
         }
+        return b;
     }
 
     template <typename T>
-- 
2.43.0


From eb6acf320804097cabbb60833a1128044ead2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:45 +0000
Subject: [PATCH 02/27] fix: scaled_weights ignores the requested mean value

---
 gbs/basisfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index d859dfa..169f1d9 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -1069,7 +1069,7 @@
     auto scaled_weights(const std::vector<std::array<T, dim>> &poles, T mean_value = T(1.0)) -> std::vector<std::array<T, dim>>
     {
         std::vector<std::array<T, dim>> new_poles(poles);
-        scale_weights(new_poles);
+        scale_weights(new_poles, mean_value);
         return new_poles;
     }
     /**
-- 
2.43.0


From 935234f19bf0e0fc6ee21fe18d03f01bee917d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:27 +0000
Subject: [PATCH 03/27] fix: insert_knots with zero insertions overwrites poles

---
 gbs/knotsfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index a25b01c..f9fdd04 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -399,7 +399,7 @@
         for(size_t i{}; i<=p-s; i++) R[i] = P[k-p+i];
 
         // Insert knots
-        size_t L{};
+        size_t L = k-p;
         for(size_t j{1}; j <= r ; j++)
         {
             L = k-p+j;
-- 
2.43.0


From 25e3816362c12fcd01b365b4b623dd651864a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:45 +0000
Subject: [PATCH 04/27] fix: adimension does not shift the values to start from
 0

---
 gbs/knotsfunctions.ixx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index f9fdd04..18f8169 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -288,7 +288,8 @@
         auto d = k.back() - k.front();
         if(fabs(d)>knot_eps<T>)
         {
-            std::transform(k.begin(),k.end(),k.begin(),[&d](auto const &k_){return k_/d;});
+            const auto k1 = k.front();
+            std::transform(k.begin(),k.end(),k.begin(),[&d,k1](auto const &k_){return (k_-k1)/d;});
         }
     }
 
-- 
2.43.0


From b6d1fed16f3515481fa76c2c45b18cba852afc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:45 +0000
Subject: [PATCH 05/27] fix: insert_unique_ordered ignores a close value just
 below the new one

---
 gbs/knotsfunctions.ixx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 18f8169..ac14a5b 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -1079,6 +1079,9 @@
     template <typename T>
     void insert_unique_ordered(std::vector<T>& vec, T value, T tolerance = knot_eps<T>) {
         auto iter = std::lower_bound(vec.begin(), vec.end(), value);
+        if (iter != vec.begin() && std::abs(value - *std::prev(iter)) <= tolerance) {
+            return; // close enough to the value just below
+        }
         if (iter == vec.end() || std::abs(value - *iter) > tolerance) {
             vec.insert(iter, value);
         } // else the value is already in the vector or close enough
-- 
2.43.0


From e059f515e97557077bdfe23216c2b02fb8cca24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:11 +0000
Subject: [PATCH 06/27] fix: frame to frame transformation multiplies by the
 source frame instead of its inverse

---
 gbs/surfaceofrevolution.h | 4 ++--
 gbs/transformpoints.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index 0d51f90..a0247ca 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -31,8 +31,8 @@ namespace gbs
             M_ = build_trf_matrix<T>(
                 {{
                     {o,o,o},
-                    {o,i,o},
-                    {o,o,i}
+                    {i,o,o},
+                    {o,i,o}
                 }}
                     ,
                 ax
diff --git a/gbs/transformpoints.h b/gbs/transformpoints.h
index a24845f..7e838ae 100644
--- a/gbs/transformpoints.h
+++ b/gbs/transformpoints.h
@@ -197,8 +197,8 @@ namespace gbs
         auto [Loc_from, P_from] = build_trf_loc_and_matrix(R_from);
 
         //Explicit types to force convertion
-        Matrix3<T> P          = P_to*P_from;
-        Vector3<T> Loc        = Loc_to - P_to * Loc_from;
+        Matrix3<T> P          = P_to * P_from.transpose();
+        Vector3<T> Loc        = Loc_to - P * Loc_from;
         return std::make_pair(Loc, P);
     }
 
-- 
2.43.0


From dc457e6fdc309eac384e59a48bcbdd124054750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:57 +0000
Subject: [PATCH 07/27] fix: second derivative of a curve on surface uses u''
 for the v direction

---
 gbs/curveonsurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveonsurface.h b/gbs/curveonsurface.h
index 503eeae..14ee3ea 100644
--- a/gbs/curveonsurface.h
+++ b/gbs/curveonsurface.h
@@ -53,7 +53,7 @@ namespace gbs
                     auto D2U = p_srf_->value(u_,v_,2,0);
                     auto D2V = p_srf_->value(u_,v_,0,2);
                     auto D2UV = p_srf_->value(u_,v_,1,1);
-                    auto V2 = d2u_ * D1U + d2u_ * D1V + 2 * du_ * dv_ * D2UV;
+                    auto V2 = d2u_ * D1U + d2v_ * D1V + 2 * du_ * dv_ * D2UV;
                     return du_ * du_ * D2U + dv_ * dv_ * D2V + V2;
                 }
                 break;
-- 
2.43.0


From ba4224661df744b7d3a5b6df6dcc0af791aabebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:57 +0000
Subject: [PATCH 08/27] fix: circle from an axis starts along a direction not
 orthogonal to the axis

---
 gbs/curvecircle.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index 43c7875..f81c2ed 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -16,9 +16,11 @@ namespace gbs
         Circle(T r, const ax2<T, dim> &ax) : r{r}, ax_{{ax[0], ax[1], r / norm(ax[2]) * ax[2] }} {} 
         Circle(T r, const ax1<T, dim> &ax) : r{r} {
             auto z = ax[1];
-            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end()));
+            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end(), [](T a, T b){ return std::abs(a) < std::abs(b); }));
             point<T,dim> x{};
-            x[i_min_coord_mag] = r;
+            x[i_min_coord_mag] = 1;
+            x = x - (z[i_min_coord_mag] / sq_norm(z)) * z; // start direction orthogonal to the axis
+            x = (r / norm(x)) * x;
             ax_ = { ax[0], ax[1], x };
         }
 
-- 
2.43.0


From 504b5baecbd895704cabc463c32828012cbeec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:57 +0000
Subject: [PATCH 09/27] fix: Circle::setR leaves the evaluated circle unchanged

---
 gbs/curvecircle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index f81c2ed..e4a9341 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -35,7 +35,7 @@ namespace gbs
         }
 
         auto getR() const noexcept -> T { return r; }
-        auto setR(T r_){r=r_;}
+        auto setR(T r_){r=r_; ax_[2] = r / norm(ax_[2]) * ax_[2];}
         /**
          * @brief Circle starting direction
          * 
-- 
2.43.0


From be43168416a188292d7338a159e5bc4e618000c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:57 +0000
Subject: [PATCH 10/27] fix: bounds of a line exclude the negative side

---
 gbs/curveline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveline.h b/gbs/curveline.h
index 905aca5..fb526b7 100644
--- a/gbs/curveline.h
+++ b/gbs/curveline.h
@@ -43,7 +43,7 @@ namespace gbs
         }
         virtual auto bounds() const -> std::array<T, 2> override
         {
-            return {std::numeric_limits<T>::min(),std::numeric_limits<T>::max()};
+            return {std::numeric_limits<T>::lowest(),std::numeric_limits<T>::max()};
         }
 
         auto getAx() const noexcept -> const ax1<T,dim>&
-- 
2.43.0


From 543ad9420c89e28a27ed53c5cdc9f781af1ac844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:57 +0000
Subject: [PATCH 11/27] fix: composite curve reads before its first curve for a
 parameter below the bounds

---
 gbs/curvecomposite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecomposite.h b/gbs/curvecomposite.h
index fd12436..5abd10e 100644
--- a/gbs/curvecomposite.h
+++ b/gbs/curvecomposite.h
@@ -33,7 +33,7 @@ namespace gbs
             {
                 pos = std::next(pos, -2);
             }
-            else
+            else if (pos != u_.begin())
             {
                 pos = std::next(pos, -1);
             }
-- 
2.43.0


From 810c804f268920a777942036447872d6fda79dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:57 +0000
Subject: [PATCH 12/27] fix: surface of revolution ignores the location of its
 axis

---
 gbs/surfaceofrevolution.h | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index a0247ca..41e8ae9 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -57,27 +57,21 @@ namespace gbs
         {
             point<T,3> pt;
             v = fmod(v,2*std::numbers::pi_v<T>);
-            if(dv==0)
+            auto pt2d = p_crv_->value(u, du);
+            pt = add_dimension<T, 2>(pt2d, 0.);
+            transform(pt,M_);
+            pt = pt - ax_[0]; // rotation takes place around the axis' origin, a derivative is a direction
+            if(dv>0)
             {
-                auto pt2d = p_crv_->value(u,du) ;
-                pt = add_dimension<T,2>(pt2d,0.);
-                transform(pt,M_);
-            }
-            else
-            {
-                auto pt2d = p_crv_->value(u, du);
-                pt = add_dimension<T, 2>(pt2d, 0.);
-                transform(pt,M_);
-                if (du == 0)
-                {
-                    pt = pt - ax_[0];
-                }
-
                 pt = cross( ax_[1], pt);
                 rotate<T>(pt,(dv-1)*std::numbers::pi_v<T>/2.,ax_[1]);
-
             }
-            return rotated<T>( pt , v, ax_[1]);
+            pt = rotated<T>( pt , v, ax_[1]);
+            if(du==0 && dv==0)
+            {
+                pt = pt + ax_[0];
+            }
+            return pt;
             
         }
         /**
-- 
2.43.0


From b62641c879b851e752d2849910a01d34b66deb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:57 +0000
Subject: [PATCH 13/27] fix: derivatives of a 3D offset curve are not those of
 the curve it evaluates

---
 gbs/curveoffset.h | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/gbs/curveoffset.h b/gbs/curveoffset.h
index 9c2dc66..4cb63be 100644
--- a/gbs/curveoffset.h
+++ b/gbs/curveoffset.h
@@ -197,12 +197,13 @@ namespace gbs
             {
                 auto crv_d1 = crv.value(u, 1);
                 auto crv_d2 = crv.value(u, 2);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-                auto off_d1 = off(u, 1);
-                return crv_d1 + normal_derivative * off_d1;
+                // normal direction N / |N| with N = direction x C'
+                auto N  = cross(direction_, crv_d1);
+                auto N1 = cross(direction_, crv_d2);
+                auto l  = norm(N);
+                auto n  = N / l;
+                auto n1 = (N1 - (n * N1) * n) / l;
+                return crv_d1 + n1 * off(u, 0) + n * off(u, 1);
             }
             break;
         case 2:
@@ -210,17 +211,18 @@ namespace gbs
                 auto crv_d1 = crv.value(u, 1);
                 auto crv_d2 = crv.value(u, 2);
                 auto crv_d3 = crv.value(u, 3);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-
-                auto d2t = (crv_d2 - ( crv_d2 * tangent) * tangent) / norm(crv_d1);
-                auto d2n = cross(d2t, direction_) + cross(tangent, cross(crv_d2, direction_));
-                auto off_d1 = off(u, 1);
-                auto off_d2 = off(u, 2);
-
-                return crv_d2 + d2n * off_d1 + normal_derivative * off_d2;
+                // normal direction N / |N| with N = direction x C'
+                auto N  = cross(direction_, crv_d1);
+                auto N1 = cross(direction_, crv_d2);
+                auto N2 = cross(direction_, crv_d3);
+                auto l  = norm(N);
+                auto n  = N / l;
+                auto l1 = n * N1;                // |N|'
+                auto n1 = (N1 - l1 * n) / l;
+                auto l2 = n1 * N1 + n * N2;      // |N|''
+                auto n2 = (N2 - l2 * n - T(2) * l1 * n1) / l;
+
+                return crv_d2 + n2 * off(u, 0) + T(2) * off(u, 1) * n1 + n * off(u, 2);
             }
             break;
         default:
-- 
2.43.0


From abec94604a18d3dfa9574fa44e29da64fb1a3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 14/27] fix: reversing a curve with restricted bounds keeps the
 bounds of the other end

---
 gbs/bscurve.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 465bdce..94312d0 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -517,6 +517,7 @@ namespace gbs
                            [&](const auto k_) {
                                return k1 + k2 - k_;
                            });
+            m_bounds = {k1 + k2 - m_bounds[1], k1 + k2 - m_bounds[0]};
         }
 
         /**
-- 
2.43.0


From acdbffb3304814b6742a8338f4fcdd7a94067d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 15/27] fix: trimming a curve with bounds in descending order
 makes it impossible to evaluate

---
 gbs/bscurve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 94312d0..5f8b1a5 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -540,7 +540,7 @@ namespace gbs
          */
         auto trim(T u1, T u2, bool permanently=true) -> void
         {
-            m_bounds = {u1,u2};
+            m_bounds = {std::min(u1,u2),std::max(u1,u2)};
             if (permanently)
             {
                 gbs::trim(m_deg, m_knotsFlats, m_poles, u1, u2);
-- 
2.43.0


From 079bb4d482afe1514c66f166d341bbb8d201c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 16/27] fix: trimming a surface with bounds in descending order
 makes it impossible to evaluate

---
 gbs/bssurf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 36ea035..a170f80 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -980,8 +980,8 @@ namespace gbs
             std::swap(m_knotsFlatsU, new_knotsUFlats);
             std::swap(m_poles, new_poles);
 
-            m_bounds[0] = u1; 
-            m_bounds[1] = u2;
+            m_bounds[0] = std::min(u1, u2);
+            m_bounds[1] = std::max(u1, u2);
         }
 
         /**
-- 
2.43.0


From 2af42fbbd3db8d456a3a90830f1e3973604f75d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 17/27] fix: BSSurfaceGeneral::pole swaps its indices and
 accepts an index out of the grid

---
 gbs/bssurf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index a170f80..b1b1c47 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -672,8 +672,8 @@ namespace gbs
         auto pole(size_t i, size_t j) -> point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            auto id = i + j * n;
+            if(i>=n || j>=nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
@@ -691,8 +691,8 @@ namespace gbs
         auto pole(size_t i, size_t j) const -> const point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            auto id = i + j * n;
+            if(i>=n || j>=nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
-- 
2.43.0


From 0ff3c32665f43a8307fd63632e120d03b149c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 18/27] fix: polesU reads past the poles instead of returning
 the last row on overflow

---
 gbs/bssurf.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index b1b1c47..4ae54f8 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -713,8 +713,9 @@ namespace gbs
             auto n = nPolesU();
             auto m = nPolesV();
             points_vector<T, dim + rational> poles_(n);
-            auto beg_ = std::next(m_poles.begin(), j * n);
-            auto end_ = (j < m) ? std::next(m_poles.begin(), (j + 1) * n) : m_poles.end();
+            auto row = (j < m) ? j : m - 1;
+            auto beg_ = std::next(m_poles.begin(), row * n);
+            auto end_ = std::next(m_poles.begin(), (row + 1) * n);
             std::copy(beg_, end_, poles_.begin());
 
             return poles_;
-- 
2.43.0


From e558278d0e065606fb9c59995bbdf66c8ffa9675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 19/27] fix: polesV reads past the poles instead of returning
 the last column on overflow

---
 gbs/bssurf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 4ae54f8..37d0698 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -736,9 +736,10 @@ namespace gbs
             auto n = nPolesU();
             auto m = nPolesV();
             points_vector<T, dim + rational> poles_(m);
+            auto col = (i < n) ? i : n - 1;
             for (auto j = 0; j < m; j++)
             {
-                poles_[j] = m_poles[i + j * n];
+                poles_[j] = m_poles[col + j * n];
             }
 
             return poles_;
-- 
2.43.0


From 2a772c9523cfb7968a4e6082d772d5a8f82380bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 20/27] fix: knot removal writes outside the poles at an end
 knot and removes other knots when asked for more than the multiplicity

---
 gbs/knotsfunctions.ixx | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index ac14a5b..5c703b9 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -457,15 +457,22 @@
     template <typename T, size_t dim>
     void remove_knot(T u, size_t num, std::vector<T> &U, std::vector<std::array<T, dim>> &P, size_t p)
     {
+        // if u is not strictly inside the domain
+        if(u <= U[p] || u >= U[P.size()])
+        {
+            return ;
+        }
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot
-        if(std::abs(U[r]-u)>knot_eps<T> || r ==0 || r == U.size())
+        if(std::abs(U[r]-u)>knot_eps<T> || U[r] <= U[p])
         {
             return ;
         }
+        u = U[r];
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
+        num = std::min(num, static_cast<size_t>(s)); // u cannot be removed more than it is present
 
         int m = U.size();
         int ord = p + 1;
@@ -475,7 +482,7 @@
         T alfi, alfj;
         int i, j, k, ii, jj, off;
 
-        std::vector<std::array<T, dim>> temp(2 * p + 1);
+        std::vector<std::array<T, dim>> temp(2 * p + 2);
 
         if (num < 1)
         {
@@ -563,10 +570,15 @@
         // Pw on every pass (so pass t>0 read stale poles and under-removed) and
         // advanced first/last even on a failing pass (desyncing the rebuild).
 
+        // if u is not strictly inside the domain, there is nothing to remove
+        if (u <= U[p] || u >= U[Pw.size()])
+        {
+            return size_t{0};
+        }
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot, there is nothing to remove
-        if (std::abs(U[r] - u) > knot_eps<T> || r == 0 || r == static_cast<decltype(r)>(U.size()))
+        if (std::abs(U[r] - u) > knot_eps<T> || U[r] <= U[p])
         {
             return size_t{0};
         }
@@ -574,9 +586,11 @@
         {
             return size_t{0};
         }
+        u = U[r];
 
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
+        num = std::min(num, static_cast<size_t>(s)); // u cannot be removed more than it is present
 
         int m = static_cast<int>(U.size());
         int ord = static_cast<int>(p) + 1;
@@ -584,7 +598,7 @@
         int last = r - s;
         int first = r - static_cast<int>(p);
 
-        std::vector<std::array<T, dim>> temp(2 * p + 1);
+        std::vector<std::array<T, dim>> temp(2 * p + 2);
 
         T alfi, alfj;
         int i, j, k, ii, jj, off;
@@ -694,14 +708,20 @@
     template <typename T, size_t dim>
     auto remove_knot(T u, size_t p, std::vector<T> &U, std::vector<std::array<T, dim>> &Pw, T tol)
     {
+        // if u is not strictly inside the domain
+        if(u <= U[p] || u >= U[Pw.size()])
+        {
+            return false;
+        }
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
 
-        // if u is not a knot
-        if(std::abs(U[r]-u)>knot_eps<T>)
+        // if u is not an internal knot
+        if(std::abs(U[r]-u)>knot_eps<T> || U[r] <= U[p])
         {
             return false;
         }
+        u = U[r];
         
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
-- 
2.43.0


From 8b9b0f9a57f54a0bb1adb335c183d4938ae94f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 21/27] fix: single knot removal duplicates the poles next to
 the affected ones and drops new ones

---
 gbs/knotsfunctions.ixx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 5c703b9..1bab9d3 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -775,13 +775,14 @@
             if (d < tol)
             {
                 remove_flag = true;
-                Pj.pop_front();
-                Pi.pop_back();
             }
         }
 
         if (remove_flag)
         {
+            // The poles around the affected ones are kept below
+            Pi.pop_front();
+            Pj.pop_back();
             auto Pw_beg = Pw.begin();
             std::vector<std::array<T, dim>> head{Pw_beg, std::next(Pw_beg, first)};
             std::vector<std::array<T, dim>> tail{std::next(Pw_beg, last + 1), Pw.end()};
-- 
2.43.0


From 12d066f0a55b928fa2e556c474b251da06c33896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:31 +0000
Subject: [PATCH 22/27] fix: single knot removal swaps the blending factors
 when it measures the deviation at the middle pole

---
 gbs/knotsfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 1bab9d3..363e1a4 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -771,7 +771,7 @@
         {
             // Check if knot removal is possible
             auto ai = (u - U[i]) / (U[i + p + 1] - U[i]);
-            auto d = distance(Pw[i], ai * Pi.back() + (1 - ai) * Pj.front());
+            auto d = distance(Pw[i], ai * Pj.front() + (1 - ai) * Pi.back());
             if (d < tol)
             {
                 remove_flag = true;
-- 
2.43.0


From 54aa962c24b40f877dbe9c5bcf049c512e96d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 23/27] fix: check_curve accepts degrees and pole counts whose
 sum wraps around, such as surfaces with fewer knots than the degree requires

---
 gbs/bscurve.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 5f8b1a5..cb9ca8d 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -213,7 +213,8 @@ namespace gbs
             std::cerr << "check_curve: knots are not ordered\n";
             return ok;
         }
-        ok = ok && ((p + 1 + np) == knots.size());
+        // both are smaller than the number of knots: checked first, so that the sum cannot wrap around
+        ok = ok && p < knots.size() && np < knots.size() && ((p + 1 + np) == knots.size());
         if(!ok)
         {
             std::cerr << "check_curve: incorrect poles/knots/degree combination\n";
-- 
2.43.0


From bfd6dbeb24930b6f2a34a187fd6494cdeb2fcdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 24/27] fix: constructing a curve or surface without knots
 reads an empty list instead of refusing the definition

---
 gbs/bscurve.h | 16 ++++++++++++----
 gbs/bssurf.h  |  3 ++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index cb9ca8d..41b4798 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -200,7 +200,12 @@ namespace gbs
     template <typename T>
     auto check_curve(size_t np, const std::vector<T> &knots, size_t p)
     {
-        bool ok = true;
+        bool ok = !knots.empty();
+        if(!ok)
+        {
+            std::cerr << "check_curve: no knots\n";
+            return ok;
+        }
         std::vector<size_t> m;
         std::vector<T> k;
         unflat_knots(knots,m,k);
@@ -274,9 +279,10 @@ namespace gbs
                        size_t p) : m_poles(poles),
                                      m_deg(p),
                                      m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_bounds{}
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object, rational definition
@@ -294,9 +300,10 @@ namespace gbs
                        size_t p) : m_poles(merge_weights(poles, weights)),
                                      m_deg(p),
                                      m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_bounds{}
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object
@@ -310,9 +317,10 @@ namespace gbs
                        size_t p) : m_poles(poles),
                                      m_knotsFlats(knots_flats),
                                      m_deg(p),
-                                     m_bounds{knots_flats.front(),knots_flats.back()}
+                                     m_bounds{}
         {
             if(!check_curve(m_poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
         }
         auto isRational() -> bool
         {
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 37d0698..97c4c6c 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -427,7 +427,7 @@ namespace gbs
                                         m_knotsFlatsV(knots_flatsV),
                                         m_degU(degU),
                                         m_degV(degV),
-                                        m_bounds{knots_flatsU.front(), knots_flatsU.back(), knots_flatsV.front(), knots_flatsV.back()}
+                                        m_bounds{}
         //,
         //   m_rational(false)
 
@@ -438,6 +438,7 @@ namespace gbs
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsU/degreeU combination");
             if (!check_curve(nPolesV(), m_knotsFlatsV, degV))
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsV/degreeV combination");
+            m_bounds = {m_knotsFlatsU.front(), m_knotsFlatsU.back(), m_knotsFlatsV.front(), m_knotsFlatsV.back()};
         }
 
         BSSurfaceGeneral(const std::vector<std::array<T, dim + rational>> &poles,
-- 
2.43.0


From 657a47827c02e4255a679c834badb0897a203703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 25/27] fix: merge_weights reads past the end of the weights
 when there are fewer weights than poles

---
 gbs/basisfunctions.ixx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index 169f1d9..f468937 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -849,6 +849,10 @@
     template <typename T, size_t dim>
     auto merge_weights(const std::vector<std::array<T, dim>> &poles, const std::vector<T> &weights) -> std::vector<std::array<T, dim + 1>>
     {
+        if (poles.size() != weights.size())
+        {
+            throw std::length_error("merge_weights: wrong weights vector length.");
+        }
         std::vector<std::array<T, dim + 1>> p(poles.size());
         std::transform(
             GBS_PAR_EXEC
-- 
2.43.0


From 973d6a19d82d14a09f94a8e53a76338ad0b89234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:16 +0000
Subject: [PATCH 26/27] fix: Bessel tangents at the first and last point use
 chords instead of slopes, and the last one itself instead of its neighbour

---
 gbs/bscinterp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index efd36b2..f94cf2b 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -80,8 +80,8 @@ auto build_3pt_tg_vec(const std::vector<std::array<T, dim>> &pts,const std::vect
         std::next(D.begin())
         );
 
-    D.front() = T(2.)*q.front() - *std::next(D.begin());
-    D.back()  = T(2.)*q.back()  - *std::next(D.end(),-1);
+    D.front() = T(2.)*d.front() - *std::next(D.begin());
+    D.back()  = T(2.)*d.back()  - *std::next(D.end(),-2);
 
     return D;
 }
@@ -114,7 +114,7 @@ auto build_3pt_tg_dir(const std::vector<std::array<T, dim>> &pts,const std::vect
         );
 
     D.front() = 2.*q.front() - *std::next(D.begin());
-    D.back()  = 2.*q.back()  - *std::next(D.end(),-1);
+    D.back()  = 2.*q.back()  - *std::next(D.end(),-2);
 
     adim(D);
 
-- 
2.43.0


From bb126b2b80f20b39cca0208cbf256a7707dcb044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:16 +0000
Subject: [PATCH 27/27] fix: adim leaves the last vector of a list unscaled,
 and reads past the end of an empty one

---
 gbs/vecop.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/vecop.ixx b/gbs/vecop.ixx
index c5d9396..be86ab0 100644
--- a/gbs/vecop.ixx
+++ b/gbs/vecop.ixx
@@ -255,7 +255,7 @@
     {
         std::transform(
             GBS_SEQ_EXEC
-            v.begin(), std::next(v.end(), -1),
+            v.begin(), v.end(),
             v.begin(),
             [](const auto &v_) {
                 return v_ / norm(v_);
-- 
2.43.0


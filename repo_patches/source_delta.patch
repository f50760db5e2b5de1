From 7cfa0de38c95bb72e0636aabff800c3881638878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 001/181] fix: copying Points keeps the coordinate type of the
 source

---
 src/api/points.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 711018a..7eba701 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -120,7 +120,7 @@ gridpp::Points::Points(const gridpp::Points& other) {
     mLons = other.mLons;
     mElevs = other.mElevs;
     mLafs = other.mLafs;
-    mTree = KDTree(mLats, mLons, mTree.get_coordinate_type());
+    mTree = KDTree(mLats, mLons, other.get_coordinate_type());
 }
 CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
-- 
2.43.0


From 11e1edcc523f38d4dd31315016aa51d08ee01bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 002/181] fix: subsets of Points keep the coordinate type

---
 src/api/points.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 7eba701..64dc3e1 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -104,7 +104,7 @@ gridpp::Points gridpp::Points::get_in_domain(const gridpp::Grid& grid) const {
         elevs.push_back(mElevs[indices[s]]);
         lafs.push_back(mLafs[indices[s]]);
     }
-    const gridpp::Points new_points(lats, lons, elevs, lafs);
+    const gridpp::Points new_points(lats, lons, elevs, lafs, get_coordinate_type());
     return new_points;
 }
 gridpp::Points& gridpp::Points::operator=(gridpp::Points other) {
@@ -146,5 +146,5 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
         elevs[i] = mElevs[index];
         lafs[i] = mLafs[index];
     }
-    return gridpp::Points(lats, lons, elevs, lafs);
+    return gridpp::Points(lats, lons, elevs, lafs, get_coordinate_type());
 }
-- 
2.43.0


From 0617c9313e688c504f9d71593cd09f547f546dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 003/181] fix: Points::subset rejects negative indices

---
 src/api/points.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 64dc3e1..442f4ef 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -136,9 +136,9 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
     vec lafs(N);
     for(int i = 0; i < N; i++) {
         int index = indices[i];
-        if(index >= mLats.size()) {
+        if(index < 0 || index >= mLats.size()) {
             std::stringstream ss;
-            ss << "Index " << index << " exceeds number of points " << mLats.size();
+            ss << "Index " << index << " is outside the range of the " << mLats.size() << " points";
             throw std::invalid_argument(ss.str());
         }
         lats[i] = mLats[index];
-- 
2.43.0


From 154156e73f5ecc7f09a91fa4e226a269a1935ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 004/181] fix: distance between (nearly) coinciding or
 antipodal points is never NaN

---
 src/api/kdtree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index fe287f8..79ba642 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -127,6 +127,8 @@ float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lo
         double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                        + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                        + sin(lat1r)*sin(lat2r);
+        // Roundoff can put the ratio slightly outside the domain of acos
+        ratio = std::max(-1.0, std::min(1.0, ratio));
         double dist = acos(ratio)*radiusEarth;
         return (float) dist;
     }
-- 
2.43.0


From 633274496510baa910402923ea3a615501aa22ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 005/181] fix: Cartesian Point has x and y consistent with
 Points and Grid

---
 src/api/point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/point.cpp b/src/api/point.cpp
index c632690..35bbd0b 100644
--- a/src/api/point.cpp
+++ b/src/api/point.cpp
@@ -16,8 +16,8 @@ gridpp::Point::Point(float lat, float lon, float elev, float laf, CoordinateType
         gridpp::convert_coordinates(lat, lon, type, this->x, this->y, this->z);
     }
     else {
-        this->x = lat;
-        this->y = lon;
+        this->x = lon;
+        this->y = lat;
         this->z = 0;
     }
 }
-- 
2.43.0


From 77ff4b5e095201de761b5a11fefbc381266c8161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 006/181] fix: get_statistic recognises variance

---
 src/api/gridpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/gridpp.cpp b/src/api/gridpp.cpp
index fee9882..64111b5 100644
--- a/src/api/gridpp.cpp
+++ b/src/api/gridpp.cpp
@@ -28,6 +28,9 @@ gridpp::Statistic gridpp::get_statistic(std::string name) {
     else if(name == "std") {
         type = gridpp::Std;
     }
+    else if(name == "variance") {
+        type = gridpp::Variance;
+    }
     else if(name == "sum") {
         type = gridpp::Sum;
     }
-- 
2.43.0


From e59174ac6c54ddf308bf81dc0c267274a7c20dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 007/181] fix: window does not read before the start of the
 accumulated counts

---
 src/api/window.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index d72305f..6ba04ca 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -68,28 +68,25 @@ vec2 gridpp::window(const vec2& array,
                     end = std::min(nX - 1, x + length / 2);
                 }
 
-                if(start - 1 >= 0) {
-                    if(counts[end] - counts[start-1] != 0) {
-                        output[y][x] = values[end] - values[start - 1];
-                    }
-                }
-                else{
-                    if(counts[end] != 0) {
-                        output[y][x] = values[end];
-                    }
+                // Accumulated values before the window starts (nothing at the start of the array)
+                float values_before = start > 0 ? values[start - 1] : 0;
+                float counts_before = start > 0 ? counts[start - 1] : 0;
+
+                if(counts[end] - counts_before != 0) {
+                    output[y][x] = values[end] - values_before;
                 }
 
                 if(statistic == gridpp::Count) {
-                    output[y][x] = counts[end] - counts[start - 1];
+                    output[y][x] = counts[end] - counts_before;
                 }
                 else {
                     if(statistic == gridpp::Mean) {
                         if(counts[end] != 0) {
-                            output[y][x] = output[y][x] / (counts[end] - counts[start-1]);
+                            output[y][x] = output[y][x] / (counts[end] - counts_before);
                         }
                     }
                     if(keep_missing) {
-                        if(counts[end] - counts[start - 1] < (end - (start - 1 ))) {
+                        if(counts[end] - counts_before < (end - (start - 1 ))) {
                             output[y][x] = gridpp::MV;
                         }
                     }
-- 
2.43.0


From d760206f862cdbc137702bab993a6f06241d1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 008/181] fix: neighbourhood standard deviation and variance
 are not lost to roundoff

---
 src/api/neighbourhood.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 4d61131..399664e 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -209,26 +209,41 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         }
     }
     else if(statistic == gridpp::Std || statistic == gridpp::Variance) {
-        vec2 mean = gridpp::neighbourhood(input, halfwidth, gridpp::Mean);
+        // E[X^2] - E[X]^2 is unstable when the variance is small compared to the mean. Use the
+        // property that VAR(X) = VAR(X-K), with K set to one of the values (see calc_statistic).
+        float K = gridpp::MV;
+        for(int y = 0; y < nY && !gridpp::is_valid(K); y++) {
+            for(int x = 0; x < nX && !gridpp::is_valid(K); x++) {
+                if(gridpp::is_valid(input[y][x]))
+                    K = input[y][x];
+            }
+        }
+        vec2 input1(nY);
         vec2 input2(nY);
         for(int y = 0; y < nY; y++) {
+            input1[y].resize(input[y].size(), 0);
             input2[y].resize(input[y].size(), 0);
             for(int x = 0; x < nX; x++) {
-                input2[y][x] = input[y][x] * input[y][x];
+                input1[y][x] = input[y][x] - K;
+                input2[y][x] = input1[y][x] * input1[y][x];
             }
         }
+        vec2 mean = gridpp::neighbourhood(input1, halfwidth, gridpp::Mean);
         vec2 mean2 = gridpp::neighbourhood(input2, halfwidth, gridpp::Mean);
         if(statistic == gridpp::Std) {
             for(int y = 0; y < nY; y++) {
                 for(int x = 0; x < nX; x++) {
-                    output[y][x] = sqrt(mean2[y][x] - mean[y][x] * mean[y][x]);
+                    float variance = mean2[y][x] - mean[y][x] * mean[y][x];
+                    // Roundoff can make the variance slightly negative
+                    output[y][x] = sqrt(variance < 0 ? 0 : variance);
                 }
             }
         }
         else {
             for(int y = 0; y < nY; y++) {
                 for(int x = 0; x < nX; x++) {
-                    output[y][x] = mean2[y][x] - mean[y][x] * mean[y][x];
+                    float variance = mean2[y][x] - mean[y][x] * mean[y][x];
+                    output[y][x] = variance < 0 ? 0 : variance;
                 }
             }
         }
-- 
2.43.0


From 450cc0b906b16a466ca4dd9e541e928772c04649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 009/181] fix: ensemble neighbourhood statistics are computed
 across all members and cells together

---
 src/api/neighbourhood.cpp | 51 ++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 399664e..ae78099 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -10,20 +10,53 @@ namespace {
     vec3 vec2_to_vec3(const vec2& input);
 }
 vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic statistic) {
-    vec2 flat(input.size());
+    if(halfwidth < 0)
+        throw std::invalid_argument("Half width must be > 0");
+    if(statistic == gridpp::Quantile)
+        throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
+    if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
+        return vec2();
+
     int Y = input.size();
     int X = input[0].size();
-    int E = input[0][0].size();
-    for(int y = 0; y < Y; y++) {
-        flat[y].resize(X, 0);
+    if(statistic == gridpp::Mean || statistic == gridpp::Sum || statistic == gridpp::Count) {
+        // The sum (count) over the window and members is the sum over the window of the sums
+        // (counts) over the members. The mean is the ratio of the two.
+        vec2 sums(Y);
+        vec2 counts(Y);
+        for(int y = 0; y < Y; y++) {
+            sums[y].resize(X, gridpp::MV);
+            counts[y].resize(X, 0);
+            for(int x = 0; x < X; x++) {
+                sums[y][x] = gridpp::calc_statistic(input[y][x], gridpp::Sum);
+                counts[y][x] = gridpp::calc_statistic(input[y][x], gridpp::Count);
+            }
+        }
+        if(statistic == gridpp::Count)
+            return neighbourhood(counts, halfwidth, gridpp::Sum);
+        vec2 results = neighbourhood(sums, halfwidth, gridpp::Sum);
+        if(statistic == gridpp::Mean) {
+            vec2 total = neighbourhood(counts, halfwidth, gridpp::Sum);
+            for(int y = 0; y < Y; y++) {
+                for(int x = 0; x < X; x++) {
+                    results[y][x] /= total[y][x];
+                }
+            }
+        }
+        return results;
     }
-    for(int y = 0; y < Y; y++) {
-        for(int x = 0; x < X; x++) {
-            flat[y][x] = gridpp::calc_statistic(input[y][x], statistic);
+    else if(statistic == gridpp::Min || statistic == gridpp::Max) {
+        vec2 flat(Y);
+        for(int y = 0; y < Y; y++) {
+            flat[y].resize(X, 0);
+            for(int x = 0; x < X; x++) {
+                flat[y][x] = gridpp::calc_statistic(input[y][x], statistic);
+            }
         }
+        return neighbourhood(flat, halfwidth, statistic);
     }
-    vec2 results = neighbourhood(flat, halfwidth, statistic);
-    return results;
+    // The other statistics cannot be computed separately for members and neighbourhood
+    return gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
 }
 vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic statistic) {
     if(halfwidth < 0)
-- 
2.43.0


From c49ce8cd1ec97b56a54f5dc5683bf791ab8f6bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 010/181] fix: neighbourhood_quantile_fast does not share the
 quantile level between threads

---
 src/api/neighbourhood.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index ae78099..b0e4ffa 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -410,11 +410,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
@@ -526,11 +525,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
-- 
2.43.0


From f759aebed7f5c1c8eb641943261c93f388b330ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 011/181] fix: calc_even_quantiles does not repeat values

---
 src/api/util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 0ca5020..6aabf7b 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -324,7 +324,9 @@ vec gridpp::calc_even_quantiles(const vec& values, int num) {
             if(index >= 0) {
                 assert(index < remaining_unique_values.size());
                 float value = remaining_unique_values[index];
-                quantiles.push_back(value);
+                // There can be fewer unique values left than quantiles
+                if(value != quantiles[quantiles.size() - 1])
+                    quantiles.push_back(value);
             }
             else {
                 std::cout << i << " " << f << " " << index << " " << num_left << " " << remaining_unique_values.size() << std::endl;
-- 
2.43.0


From 4dfdb16cb6d94dfe89b7377e582997fcd9d26f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 012/181] fix: bilinear and get_box work on Cartesian grids

---
 src/api/grid.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 58b0185..e267f12 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -194,11 +194,12 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
         else if(X == nX - 1 && xdir == 1)
             continue;
         // std::cout << "Iteration " << it << " " << ydir << " " << xdir << std::endl;
-        Point A(mLats[Y][X], mLons[Y][X]);
-        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X]);
-        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir]);
-        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir]);
-        Point curr(lat, lon);
+        CoordinateType type = get_coordinate_type();
+        Point A(mLats[Y][X], mLons[Y][X], gridpp::MV, gridpp::MV, type);
+        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X], gridpp::MV, gridpp::MV, type);
+        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point curr(lat, lon, gridpp::MV, gridpp::MV, type);
         // std::cout << A.lat << "," << B.lat << "," << C.lat << "," << D.lat << "," << curr.lat << std::endl;
         // std::cout << A.lon << "," << B.lon << "," << C.lon << "," << D.lon << "," << curr.lon << std::endl;
         bool inrectangle = point_in_rectangle(A, B, C, D, curr);
-- 
2.43.0


From 8764afd0d5aeda2e5bad88ad68f97b9523a74062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 013/181] fix: bilinear detects parallelograms relative to the
 size of the cell

---
 src/api/bilinear.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 6dc9202..0b07f09 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -19,6 +19,10 @@ namespace {
     // Compute s,t when the points form a parallelogram
     bool calcParallelogram(float x, float y, float X1, float X2, float X3, float X4, float Y1, float Y2, float Y3, float Y4, float &t, float &s);
 
+    // Check if the line from (xa,ya) to (xb,yb) is parallel to the line from (xc,yc) to (xd,yd), to
+    // within the accuracy of the coordinates
+    bool is_parallel(float xa, float ya, float xb, float yb, float xc, float yc, float xd, float yd);
+
     // Check that value is within -tol and 1+tol
     bool is_within_range(float value);
     // Compute s,t when the points do not form a parallelogram
@@ -152,6 +156,20 @@ namespace {
         t = det * ((x - X1) * (-C) + (y - Y1) * (A));
         return true;
     }
+    bool is_parallel(float xa, float ya, float xb, float yb, float xc, float yc, float xd, float yd) {
+        double dx1 = xb - xa;
+        double dy1 = yb - ya;
+        double dx2 = xd - xc;
+        double dy2 = yd - yc;
+        double length1 = sqrt(dx1 * dx1 + dy1 * dy1);
+        double length2 = sqrt(dx2 * dx2 + dy2 * dy2);
+        // The tolerances must be relative to the lengths, otherwise cells of high resolution grids
+        // are always considered to be parallelograms.
+        double max_coord = std::max(std::max(fabs(xa), fabs(ya)), std::max(fabs(xd), fabs(yd)));
+        double roundoff = 2 * std::numeric_limits<float>::epsilon() * max_coord;
+        double tol = 1e-4 * length1 * length2 + roundoff * (length1 + length2);
+        return fabs(dx1 * dy2 - dx2 * dy1) <= tol;
+    }
     bool is_within_range(float value) {
         float tol = 0.01;
         return value >= -tol && value < 1 + tol;
@@ -286,9 +304,8 @@ namespace {
 
        float s = gridpp::MV, t = gridpp::MV;
        bool rectangularGrid = (X1 == X3 && X2 == X4 && Y1 == Y2 && Y3 == Y4);
-       // TODO: Why are the tolerances so high?
-       bool verticalParallel = fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) <= 1e-4;
-       bool horizontalParallel = fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) <= 1e-4;
+       bool verticalParallel = is_parallel(X1, Y1, X3, Y3, X2, Y2, X4, Y4);
+       bool horizontalParallel = is_parallel(X1, Y1, X2, Y2, X3, Y3, X4, Y4);
 
        // std::cout << rectangularGrid << " " << fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) << " " << fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) << std::endl;
 
-- 
2.43.0


From d1341cdd6eddc12ffda6c510a74a66ac01165832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 014/181] fix: full_gradient_debug works when a gradient is not
 provided

---
 src/api/gradient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index e66c138..34065c0 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -321,9 +321,9 @@ vec3 gridpp::full_gradient_debug(const Grid& igrid, const Grid& ogrid, const vec
         for(int x = 0; x < nX; x++){
             //Collect output and input LAF and elevations
             float olaf = olafs[y][x];
-            float ilaf = dlafs[y][x];
+            float ilaf = dlafs.size() > 0 ? dlafs[y][x] : gridpp::MV;
             float oelev = oelevs[y][x];
-            float ielev = delevs[y][x];
+            float ielev = delevs.size() > 0 ? delevs[y][x] : gridpp::MV;
 
             //Calculate LAF and elevation difference between output and input
             float laf_diff = olaf - ilaf;
-- 
2.43.0


From d6e173201a9e7bd78b0fb07d1c1af2787defa735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 015/181] fix: calc_gradient uses the default gradient when the
 base is constant

---
 src/api/calc_gradient.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index 2961d09..ef4a61a 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -62,7 +62,7 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
                     output[y][x] = default_gradient;
                 }
 
-                else if(abs(current_max - current_min) <= min_range){
+                else if(current_max == current_min || abs(current_max - current_min) <= min_range){
                     output[y][x] = default_gradient;
                 }
                 else{
@@ -82,15 +82,30 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
         vec2 base_x_values = gridpp::init_vec2(nY, nX, gridpp::MV);
         vec2 is_valid = gridpp::init_vec2(nY, nX, 0);
 
+        // The moments lose all their precision when the variability is small compared to the mean.
+        // The gradient is not affected by subtracting one of the values.
+        float base_offset = 0;
+        float values_offset = 0;
+        bool found = false;
+        for(int y = 0; y < nY && !found; y++){
+            for(int x = 0; x < nX && !found; x++){
+                if(gridpp::is_valid(base[y][x]) && gridpp::is_valid(values[y][x])) {
+                    base_offset = base[y][x];
+                    values_offset = values[y][x];
+                    found = true;
+                }
+            }
+        }
+
         #pragma omp parallel for collapse(2)
         for(int y = 0; y < nY; y++){
             for(int x = 0; x < nX; x++){
                 if(gridpp::is_valid(base[y][x]) && gridpp::is_valid(values[y][x])) {
-                    base_x_base[y][x] = pow(base[y][x], 2);
-                    base_x_values[y][x] = base[y][x] * values[y][x];
+                    base0[y][x] = base[y][x] - base_offset;
+                    values0[y][x] = values[y][x] - values_offset;
+                    base_x_base[y][x] = pow(base0[y][x], 2);
+                    base_x_values[y][x] = base0[y][x] * values0[y][x];
                     is_valid[y][x] = 1;
-                    base0[y][x] = base[y][x];
-                    values0[y][x] = values[y][x];
                 }
             }
         }
@@ -106,7 +121,7 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
         for(int y = 0; y < nY; y++){
             for(int x = 0; x < nX; x++){
                 output[y][x] = default_gradient;
-                if(count[y][x] >= num_min && gridpp::is_valid(meanXX[y][x]) && gridpp::is_valid(meanXY[y][x]) && gridpp::is_valid(meanX[y][x]) && meanXX[y][x] - meanX[y][x] * meanX[y][x] != 0) {
+                if(count[y][x] >= num_min && gridpp::is_valid(meanXX[y][x]) && gridpp::is_valid(meanXY[y][x]) && gridpp::is_valid(meanX[y][x]) && meanXX[y][x] - meanX[y][x] * meanX[y][x] > 1e-6 * meanXX[y][x]) {
                     bool valid_range = true;
                     if(gridpp::is_valid(min_range)) {
                         // Use the STD as a measure of range, since this is more efficient
-- 
2.43.0


From 63d1415cb4d64cd8cd853d2d49fc1dfe46992c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 016/181] fix: smart does not crash when no gridpoints are
 close enough

---
 src/api/smart.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 6f5c0c9..8bd6b4b 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -45,7 +45,7 @@ vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, in
                 rhos.push_back(std::pair<float,int>(rho, s));
             }
             std::sort(rhos.begin(), rhos.end(), ::sort_pair_first<float,int>());
-            assert(rhos[0].first <= rhos[rhos.size()-1].first);
+            assert(rhos.size() == 0 || rhos[0].first <= rhos[rhos.size()-1].first);
             float sum = 0;
             int count = 0;
             for(int s = 0; s < std::min(num, int(indices.size())); s++) {
-- 
2.43.0


From 28610de6d048c641a4c6c528c800a738acfb708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 017/181] fix: quantile_mapping_curve extracts quantiles of the
 sorted values

---
 src/api/quantile_mapping.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/quantile_mapping.cpp b/src/api/quantile_mapping.cpp
index a47b863..96240d0 100644
--- a/src/api/quantile_mapping.cpp
+++ b/src/api/quantile_mapping.cpp
@@ -38,8 +38,8 @@ vec gridpp::quantile_mapping_curve(const vec& ref, const vec& fcst, vec& output_
         vec output_ref(N);
         for(int i = 0; i < N; i++) {
             int index = quantiles[i] * (S - 1);
-            output_fcst[i] = fcst[index];
-            output_ref[i] = ref[index];
+            output_fcst[i] = fcst_sort[index];
+            output_ref[i] = ref_sort[index];
         }
         return output_ref;
     }
-- 
2.43.0


From 1269f4fc3568431dad8cc6800c4c73f770ac5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 018/181] fix: monotonize_curve handles curves without valid
 points

---
 src/api/curve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 1f0ba26..a5390df 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -160,6 +160,11 @@ vec gridpp::monotonize_curve(vec curve_ref, vec curve_fcst, vec& output_fcst) {
         }
     }
     N = curve_ref.size();
+    if(N == 0) {
+        // No valid points
+        output_fcst.clear();
+        return vec();
+    }
     ivec new_indices;
     new_indices.reserve(N);
 
-- 
2.43.0


From df7f7910726d6dbacc1ac7117ada1b063cdc1a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 019/181] fix: interpolate does not read outside curves with
 missing values

---
 src/api/util.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 6aabf7b..c313a12 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -392,6 +392,10 @@ float gridpp::interpolate(float x, const vec& iX, const vec& iY) {
 
     int i0   = get_lower_index(x, iX);
     int i1   = get_upper_index(x, iX);
+    if(i0 < 0 || i1 < 0) {
+        // The curve has missing values
+        return gridpp::MV;
+    }
     float x0 = iX[i0];
     float x1 = iX[i1];
     float y0 = iY[i0];
-- 
2.43.0


From 548021c39e28f20cbed362b69bcf79d95750abbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 020/181] fix: calc_score excludes pairs with a missing
 forecast

---
 src/api/metric_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 79babd5..0a53326 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -195,7 +195,7 @@ float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, float
             else if(ref[t] <= threshold)
                 b++;
         }
-        else {
+        else if(fcst[t] <= fthreshold) {
             if(ref[t] > threshold)
                 c++;
             else if(ref[t] <= threshold)
-- 
2.43.0


From 775c60c311f300dc833b59f35b9320d4011a7353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 021/181] fix: get_optimal_threshold does not hang without
 valid forecasts and sizes are checked

---
 src/api/metric_optimizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 0a53326..0db594f 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -135,7 +135,11 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     bool remove_at_boundary = true;
     // int bits = std::numeric_limits<double>::digits;
     int bits = 32;
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
     Data data(ref, fcst, threshold, metric);
+    if(!gridpp::is_valid(data.min) || !gridpp::is_valid(data.max))
+        return gridpp::MV;
     Score_func func(data);
 
     /* Compute values at even intervals, to find where to start optimization search */
@@ -186,6 +190,8 @@ float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, gridp
     return calc_score(ref, fcst, threshold, threshold, metric);
 }
 float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, float fthreshold, gridpp::Metric metric) {
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
     float a = 0, b = 0, c = 0, d = 0;
     int N = fcst.size();
     for(int t = 0; t < N; t++) {
-- 
2.43.0


From 835e7317820732e205fe05674a510a40a747ddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 022/181] fix: get_optimal_threshold does not return a
 threshold with a lower score than one it already scanned

---
 src/api/metric_optimizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 0db594f..d69b210 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -154,7 +154,7 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
         float curr_x = data.min + (data.max - data.min) / (B - 1) * b;
         float curr_value = func(curr_x);
         // std::cout << curr_x << " " << curr_value << " " << min_index << " " << min_value << std::endl;
-        if(curr_value < min_value) {
+        if(curr_value < min_value || !gridpp::is_valid(min_value)) {
             min_index = b;
             min_value = curr_value;
         }
@@ -164,6 +164,11 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     // std::cout << "MIN: " << data.min << " " << "MAX: " << data.max << std::endl;
     // std::cout << "MIN: " << bins[left_index] << " " << "MAX: " << bins[right_index] << std::endl;
     std::pair<double, double> r = brent_find_minima<Score_func, double>(func, bins[left_index], bins[right_index], bits);
+    // The score is piecewise constant, so the search can end up at a worse point than where it started
+    if(gridpp::is_valid(min_value) && !(r.second <= min_value)) {
+        r.first = bins[min_index];
+        r.second = min_value;
+    }
     float x = r.first;
     float score = - r.second;
     if(!gridpp::is_valid(score))
-- 
2.43.0


From 317f10229d899d6b96d699db1a672f11fec6cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 023/181] fix: get_optimal_threshold removes optima at the
 boundary by comparing scores of the same sign

---
 src/api/metric_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index d69b210..ec82f85 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -186,7 +186,7 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     if(remove_at_boundary) {
         float s0 = - func(data.min);
         float s1 = - func(data.max);
-        if (fabs(r.second - s0) < 0.001 || fabs(r.second - s1) < 0.001)
+        if (fabs(score - s0) < 0.001 || fabs(score - s1) < 0.001)
             x = gridpp::MV;
     }
     return x;
-- 
2.43.0


From fd2e7ebc9c14333750ad563cee23d553a04bb136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 024/181] fix: Cressman, SOAR, and TOAR correlations are
 symmetric in elevation and land area fraction

---
 src/api/structure.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index 6d05272..ceff4aa 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -38,6 +38,7 @@ float gridpp::StructureFunction::cressman_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
+    dist = fabs(dist);
     if(dist >= length)
         return 0;
     return (length * length - dist * dist) / (length * length + dist * dist);
@@ -49,6 +50,7 @@ float gridpp::StructureFunction::soar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
+    dist = fabs(dist);
     float v = dist / length;
     return (1 + v) * exp(-v);
 }
@@ -59,6 +61,7 @@ float gridpp::StructureFunction::toar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
+    dist = fabs(dist);
     float v = dist / length;
     return (1 + v + (v * v) / 3) * exp(-v);
 }
-- 
2.43.0


From 1b446151b13b25f82ef9233250c909fd32cc95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 025/181] fix: SOAR and TOAR are truncated at hmax (and at
 min_rho)

---
 include/gridpp.h      |  2 ++
 src/api/structure.cpp | 41 ++++++++++++++++++++++++++++++++---------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/gridpp.h b/include/gridpp.h
index eccd691..e31e212 100644
--- a/include/gridpp.h
+++ b/include/gridpp.h
@@ -2214,6 +2214,7 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_max_scaled_distance;
             bool m_is_spatial;
     };
     /** TOAR structure function based on distance, elevation, and land area fraction */
@@ -2246,6 +2247,7 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_max_scaled_distance;
             bool m_is_spatial;
     };
     /** Powerlaw structure function based on distance, elevation, and land area fraction */
diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index ceff4aa..77c51ab 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -2,6 +2,32 @@
 
 using namespace gridpp;
 
+namespace {
+    /** Find the scaled distance where a correlation function reaches a certain value
+      * @param rho Correlation as a (decreasing) function of scaled distance
+      * @param min_rho Correlation to find distance for
+      * @returns Distance, relative to the length scale
+    */
+    template<class T> float invert_rho(const T& rho, float min_rho) {
+        double lower = 0;
+        double upper = 1000;
+        for(int i = 0; i < 60; i++) {
+            double middle = (lower + upper) / 2;
+            if(rho(middle) > min_rho)
+                lower = middle;
+            else
+                upper = middle;
+        }
+        return upper;
+    }
+    double soar(double v) {
+        return (1 + v) * exp(-v);
+    }
+    double toar(double v) {
+        return (1 + v + (v * v) / 3) * exp(-v);
+    }
+}
+
 const float gridpp::StructureFunction::default_min_rho = 0.0013;
 
 gridpp::StructureFunction::StructureFunction(float localization_distance) {
@@ -332,6 +358,7 @@ gridpp::SoarStructure::SoarStructure(float h, float v, float w, float hmax) :
         m_min_rho = (1 + hmax / h) * exp(-hmax / h);
     else
         m_min_rho = default_min_rho;
+    m_max_scaled_distance = ::invert_rho(::soar, m_min_rho);
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -348,6 +375,7 @@ gridpp::SoarStructure::SoarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
         mH(h),
         mV(v),
         mW(w) {
+    m_max_scaled_distance = ::invert_rho(::soar, m_min_rho);
     if(mH.size() == 1 && mH[0].size() == 1 && mV.size() == 1 && mV[0].size() == 1 && mW.size() == 1 && mW[0].size() == 1) {
         m_is_spatial = false;
     }
@@ -455,10 +483,7 @@ float gridpp::SoarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::SoarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 8.53
-    float log_min_rho = log(m_min_rho);
-    return ( -log_min_rho + log( -log_min_rho)) * h;
+    return m_max_scaled_distance * h;
 }
 //-----------------------------------------------------------------------------
 /** End SOAR */
@@ -482,6 +507,7 @@ gridpp::ToarStructure::ToarStructure(float h, float v, float w, float hmax) :
         m_min_rho = (1 + hmax / h + pow(hmax / h, 2)/3) * exp(-hmax / h);
     else
         m_min_rho = default_min_rho;
+    m_max_scaled_distance = ::invert_rho(::toar, m_min_rho);
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -498,6 +524,7 @@ gridpp::ToarStructure::ToarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
         mH(h),
         mV(v),
         mW(w) {
+    m_max_scaled_distance = ::invert_rho(::toar, m_min_rho);
     if(mH.size() == 1 && mH[0].size() == 1 && mV.size() == 1 && mV[0].size() == 1 && mW.size() == 1 && mW[0].size() == 1) {
         m_is_spatial = false;
     }
@@ -605,11 +632,7 @@ float gridpp::ToarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::ToarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x+1/3*x^2)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 9.487
-    float log_min_rho = log(m_min_rho);
-    float log_log_min_rho = log( -log(m_min_rho));
-    return ( -log_min_rho + log_log_min_rho + 0.5 * log_log_min_rho ) * h;
+    return m_max_scaled_distance * h;
 }
 //-----------------------------------------------------------------------------
 /** End TOAR */
-- 
2.43.0


From 70eef1263ddc9578e9f56f60ed53c4c6b097873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 026/181] fix: optimal_interpolation_full sets the analysis
 variance when there are no observations

---
 src/api/oi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index ffa656c..d0c0453 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -186,8 +186,10 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
     }
     int nY = background.size();
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0) {
+        analysis_variance = bvariance;
         return background;
+    }
 
     vec pratios(nS);
     for(int s = 0; s < nS; s++) {
-- 
2.43.0


From 9f2efa373b075a7b7713d0c51cdcbf75bd42c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 027/181] fix: optimal_interpolation does not extrapolate when
 one innovation is zero

---
 src/api/oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index d0c0453..20826fa 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -321,13 +321,13 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
             float maxInc = arma::max(lObs - lY);
             float minInc = arma::min(lObs - lY);
 
-            if(maxInc > 0 && increment > maxInc) {
+            if(maxInc >= 0 && increment > maxInc) {
                increment = maxInc;
             }
             else if(maxInc < 0 && increment > 0) {
                increment = maxInc;
             }
-            else if(minInc < 0 && increment < minInc) {
+            else if(minInc <= 0 && increment < minInc) {
                increment = minInc;
             }
             else if(minInc > 0 && increment < 0) {
-- 
2.43.0


From 3b9ab143cf689ab6cfa1034829392113861b31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 028/181] fix: optimal_interpolation checks the sizes of all
 its inputs

---
 src/api/oi.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index 20826fa..9f3007d 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -41,9 +41,9 @@ vec2 gridpp::optimal_interpolation(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(background.size() == 0 || !gridpp::compatible_size(bgrid, background)) {
         std::stringstream ss;
-        ss << "input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
+        ss << "input field is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != points.size()) {
@@ -120,6 +120,12 @@ vec gridpp::optimal_interpolation(const gridpp::Points& bpoints,
         throw std::invalid_argument(ss.str());
     }
 
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
+
     vec obs_variance(pratios.size());
     vec bvariance_at_points(pratios.size());
     for(int i = 0; i < pratios.size(); i++) {
@@ -175,6 +181,11 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         ss << "Obs variance (" << obs_variance.size() << ") and points (" << points.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
     if(bvariance_at_points.size() != points.size()) {
         std::stringstream ss;
         ss << "Background variance (" << bvariance_at_points.size() << ") and points (" << points.size() << ") size mismatch";
@@ -361,11 +372,14 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(background.size() == 0 || !gridpp::compatible_size(bgrid, background)) {
         std::stringstream ss;
-        ss << "input field (" << bgrid.size()[0] << "," << bgrid.size()[1] << ") is not the same size as the grid (" << background.size() << "," << background[0].size() << ")";
+        ss << "input field is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
+    if(!gridpp::compatible_size(bvariance, background)) {
+        throw std::invalid_argument("Background variance is not the same size as the background");
+    }
     if(obs.size() != points.size()) {
         std::stringstream ss;
         ss << "Observations (" << obs.size() << ") and points (" << points.size() << ") size mismatch";
-- 
2.43.0


From 48ae8561fde01d277b24f734487716463defdb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 029/181] fix: optimal_interpolation does not abort on
 redundant observations without error

---
 src/api/oi.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index 9f3007d..d562f2a 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -325,7 +325,12 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
                 lP(i, j) = corr[j];
             }
         }
-        mattype lGSR = lG * arma::inv(lP + lR);
+        mattype lPRinv;
+        if(arma::rcond(lP + lR) < 1e-10 || !arma::inv(lPRinv, lP + lR)) {
+            // Perfectly redundant observations
+            lPRinv = arma::pinv(lP + lR);
+        }
+        mattype lGSR = lG * lPRinv;
         vectype dx = lGSR * (lObs - lY);
         float increment = dx[0];
         if(!allow_extrapolation) {
-- 
2.43.0


From e904275a665677b4a0dd9d12a3f250f890343972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 030/181] fix: optimal_interpolation_ensi limits a member's
 increment by that member's innovations

---
 src/api/oi_ensi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 4766d72..4acc83d 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -520,8 +520,8 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
-- 
2.43.0


From 29342bbb4a093a39fe1828f642447823fecd0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 031/181] fix: optimal_interpolation_ensi does not extrapolate
 when one innovation is zero

---
 src/api/oi_ensi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 4acc83d..48f6e19 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -534,13 +534,13 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From 9b91f418ebf9c02c25de8c7976c3d5cfb8b8f827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 032/181] fix: optimal_interpolation_ensi handles members
 missing in the background

---
 src/api/oi_ensi.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 48f6e19..29c330f 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -163,20 +163,6 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     vec pelevs = points.get_elevs();
     vec plafs = points.get_lafs();
 
-    // Compute Y
-    vec2 gY = pbackground;
-    vec gYhat(nS);
-    for(int i = 0; i < nS; i++) {
-        float mean = gridpp::calc_statistic(gY[i], gridpp::Mean);
-        for(int e = 0; e < nEns; e++) {
-            float value = gY[i][e];
-            if(gridpp::is_valid(value) && gridpp::is_valid(mean)) {
-                gY[i][e] -= mean;
-            }
-        }
-        gYhat[i] = mean;
-    }
-
     // Create all objects of type Point (to save time on creation later)
     std::vector<Point> point_vec;
     point_vec.reserve(nS);
@@ -200,6 +186,26 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         }
     }
 
+    // Compute Y. Only use observations where all valid members have a background
+    vec2 gY = pbackground;
+    vec gYhat(nS);
+    std::vector<bool> is_valid_obs(nS);
+    for(int i = 0; i < nS; i++) {
+        vec values;
+        values.reserve(nValidEns);
+        is_valid_obs[i] = gridpp::is_valid(pobs[i]);
+        for(int k = 0; k < nValidEns; k++) {
+            values.push_back(gY[i][validEns[k]]);
+            if(!gridpp::is_valid(values[k]))
+                is_valid_obs[i] = false;
+        }
+        float mean = gridpp::calc_statistic(values, gridpp::Mean);
+        for(int k = 0; k < nValidEns; k++) {
+            gY[i][validEns[k]] -= mean;
+        }
+        gYhat[i] = mean;
+    }
+
     // This causes segmentation fault when building the gridpp pypi package
     // 1) Tested removing num_condition_warning and num_real_part_warning from the parallel loop
     //    but it doesnt seem to help
@@ -232,7 +238,7 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index])) {
+            if(is_valid_obs[index]) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From ee0a4a23ac8186e0d182ae996894a3e501bb9307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 033/181] fix: optimal_interpolation_ensi checks sizes and
 keeps the background for invalid observation errors

---
 src/api/oi_ensi.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 29c330f..f094958 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -79,6 +79,12 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
         throw std::invalid_argument(ss.str());
     }
 
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
+
     // Check ensemble size is consistent
     if(nE != pbackground[0].size()) {
         std::stringstream ss;
@@ -145,7 +151,17 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    for(int y = 0; y < nY; y++) {
+        if(background[y].size() != nEns)
+            throw std::invalid_argument("Ensemble members in the background are not the same for all points");
+    }
+    for(int i = 0; i < nS; i++) {
+        if(pbackground[i].size() != nEns)
+            throw std::invalid_argument("Ensemble members in background is not the same as in the point background");
+    }
 
     // Prepare output matrix
     vec2 output = background;
@@ -390,7 +406,7 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
 
         Pinv = C * lY + diag * arma::eye<mattype>(nValidEns, nValidEns);
         float cond = arma::rcond(Pinv);
-        if(cond <= 0) {
+        if(!(cond > 0)) {
             num_condition_warning++;
             continue;
         }
-- 
2.43.0


From 5887bf203a47333fd8e6f5799cfa8af67379a76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 034/181] fix: ensi_multi does not write outside arrays when
 there are more observations than gridpoints

---
 src/api/oi_ensi_multi.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 5339d4d..94ddea7 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -419,7 +419,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
         return background;
 
     // gZ_R(nY, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
-    vec2 gZ_R = gridpp::init_vec2(nY, nValidEns); // useful to compute dynamical correlations
+    vec2 gZ_R = gridpp::init_vec2(nS, nValidEns); // useful to compute dynamical correlations
     for(int i = 0; i < nS; i++) {
         vec pbackgroundValid_R(nValidEns);
         for(int e = 0; e < nValidEns; e++) {
@@ -953,8 +953,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
         return background;
 
     // Compute Y
-    vec2 gY = gridpp::init_vec2(nY, nValidEns);
-    vec2 gY_corr = gridpp::init_vec2(nY, nValidEns);
+    vec2 gY = gridpp::init_vec2(nS, nValidEns);
+    vec2 gY_corr = gridpp::init_vec2(nS, nValidEns);
     vec gYhat(nS);
     float const_fact = 1 / sqrt(nValidEns-1);
     for(int i = 0; i < nS; i++) {
-- 
2.43.0


From 19f386375cea1d761b934b984ed2304d5e0a88d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 035/181] fix: ensi_multi uses the right innovations when
 members are missing

---
 src/api/oi_ensi_multi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 94ddea7..1bbfe79 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -554,7 +554,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
             for(int e = 0; e < nValidEns; e++) {
                 lZ_R(i, e) = gZ_R[index][e];
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lLoc2D
             Point p1 = point_vec[index];
@@ -803,7 +803,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
             // compute lInnov
             for(int e = 0; e < nValidEns; e++) {
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lCorr2D
             Point p1 = point_vec[index];
-- 
2.43.0


From 4f31f557949bae52eca1161a9ea715e7a441a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 036/181] fix: ensi_multi does not use observations that are
 missing for some members

---
 src/api/oi_ensi_multi.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 1bbfe79..0cbe213 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -477,7 +477,12 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2); 
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            bool is_valid_obs = true;
+            for(int e = 0; e < nValidEns; e++) {
+                if(!gridpp::is_valid(pobs[index][validEns[e]]))
+                    is_valid_obs = false;
+            }
+            if(is_valid_obs) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
@@ -742,7 +747,12 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            bool is_valid_obs = true;
+            for(int e = 0; e < nValidEns; e++) {
+                if(!gridpp::is_valid(pobs[index][validEns[e]]))
+                    is_valid_obs = false;
+            }
+            if(is_valid_obs) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From 640d148649880931f4901ceea3069cc8ff3d40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 037/181] fix: ensi_multi limits increments by the innovations
 of the member, also when one is zero

---
 src/api/oi_ensi_multi.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 0cbe213..43cee43 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -593,14 +593,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0;
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -841,14 +841,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0; 
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -1273,8 +1273,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
@@ -1287,13 +1287,13 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From 100c2b7a5e4b56211c89503037bfbfd1e99382a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 038/181] fix: ensi_multi checks ensemble sizes and keeps the
 background for invalid ratios

---
 src/api/oi_ensi_multi.cpp | 62 +++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 43cee43..e29cfb6 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -20,6 +20,12 @@ namespace {
             return left.first < right.first;
         };
     };
+    void check_members(const vec2& input, int nEns) {
+        for(int i = 0; i < input.size(); i++) {
+            if(input[i].size() != nEns)
+                throw std::invalid_argument("Ensemble size mismatch");
+        }
+    }
 }
 
 template<class Matrix>
@@ -66,35 +72,35 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
         std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground.size() != nS || pbackground[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground_corr field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS || pobs[0].size() != nE) {
         std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Observations and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pratios.size() != nS) {
@@ -167,25 +173,25 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground.size() != nS || pbackground[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS || pobs[0].size() != nE) {
         std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Observations and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pratios.size() != nS) {
@@ -258,30 +264,30 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
         std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground.size() != nS || pbackground[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground_corr field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS) {
@@ -367,7 +373,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    ::check_members(background, nEns);
+    ::check_members(pbackground, nEns);
+    ::check_members(background_corr, nEns);
+    ::check_members(pbackground_corr, nEns);
+    ::check_members(pobs, nEns);
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -666,7 +679,12 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    ::check_members(background, nEns);
+    ::check_members(pbackground, nEns);
+    ::check_members(pobs, nEns);
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -910,7 +928,13 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    ::check_members(background, nEns);
+    ::check_members(pbackground, nEns);
+    ::check_members(background_corr, nEns);
+    ::check_members(pbackground_corr, nEns);
 
     // Prepare output matrix
     vec2 output = background;
@@ -1114,7 +1138,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
 
         Pinv = C * lY_corr + 1 * arma::eye<mattype>(nValidEns, nValidEns);
         float cond = arma::rcond(Pinv);
-        if(cond <= 0) {
+        if(!(cond > 0)) {
             num_condition_warning++;
             continue;
         }
-- 
2.43.0


From 4ee7fdd482d84f308ade97ba1578a7ea60155e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 039/181] fix: neighbourhood_search checks the sizes of all
 rows of its inputs

---
 src/api/neighbourhood_search.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index 6d86893..d960134 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -13,12 +13,21 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
     if(halfwidth < 0) {
         throw std::invalid_argument("halfwidth must be positive");
     }
-    if(search_array.size() != array.size() || search_array[0].size() != array[0].size()) {
-
+    if(!gridpp::compatible_size(array, search_array)) {
         throw std::invalid_argument("search_array must either be the same size as array");
     }
-    if(apply_array.size() > 1 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
-        throw std::invalid_argument("apply_array must either be empty or same size as array");
+    if(array.size() == 0 || array[0].size() == 0)
+        return array;
+    for(int y = 0; y < array.size(); y++) {
+        if(array[y].size() != array[0].size())
+            throw std::invalid_argument("All rows of array must have the same size");
+    }
+    if(apply_array.size() > 0) {
+        bool same_size = apply_array.size() == array.size();
+        for(int y = 0; same_size && y < array.size(); y++)
+            same_size = apply_array[y].size() == array[y].size();
+        if(!same_size)
+            throw std::invalid_argument("apply_array must either be empty or same size as array");
     }
 
     vec2 output = gridpp::init_vec2(array.size(), array[0].size());
-- 
2.43.0


From ab7d63e7e9a609a696cfa36e621839ec98777973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 040/181] fix: neighbourhood_search uses the closest point when
 within search_delta of the target range

---
 src/api/neighbourhood_search.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index d960134..80e90e2 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -79,8 +79,9 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
                         else if (counter > 0)
                             /*  We have decided that we will only use values within the search target */
                             continue;
-                        else if(std::abs(search_array[yy][xx] - search_array[y][x]) >= search_delta) {
-                            /* Finding nearest value that's outside of the search target range */
+                        else if(std::min(std::abs(search_array[yy][xx] - search_target_min), std::abs(search_array[yy][xx] - search_target_max)) <= search_delta) {
+                            /* Finding nearest value that's outside of the search target range, but
+                               within search_delta of it */
                             if(!gridpp::is_valid(nearest_target)) {
                                 /* Set first value*/
                                 nearest_target = search_array[yy][xx];
-- 
2.43.0


From cdd3c9cda8f88a98ede440b701c2a06ae54e09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 041/181] fix: local_distribution_correction checks the sizes
 of its inputs and quantile limits

---
 src/api/local_distribution_correction.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index d0fabf1..f9a938a 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -40,6 +40,17 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         float max_quantile,
         int min_points) {
 
+    if(!gridpp::is_valid(min_quantile) || !gridpp::is_valid(max_quantile) || min_quantile < 0 || max_quantile > 1 || min_quantile > max_quantile)
+        throw std::invalid_argument("Quantiles must be on the interval [0, 1], with min_quantile <= max_quantile");
+    if(background.size() != bgrid.size()[0])
+        throw std::invalid_argument("Background is not the same size as the grid");
+    for(int y = 0; y < background.size(); y++) {
+        if(background[y].size() != bgrid.size()[1])
+            throw std::invalid_argument("Background is not the same size as the grid");
+    }
+    if(background.size() == 0 || background[0].size() == 0)
+        return background;
+
     int nY = background.size();
     int nX = background[0].size();
     int nT = pobs.size();
@@ -49,9 +60,13 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
 
     if (pobs.size() != pbackground.size()) {
         std::stringstream ss;
-        ss << "pobs (" << pobs.size() << "," << pobs[0].size() << ") is not the same size as pbackground (" << pbackground.size() << "," << pbackground[0].size() << ")";
+        ss << "pobs (" << pobs.size() << " times) is not the same size as pbackground (" << pbackground.size() << " times)";
         throw std::invalid_argument(ss.str());
     }
+    for(int t = 0; t < nT; t++) {
+        if(pobs[t].size() < points.size() || pbackground[t].size() < points.size())
+            throw std::invalid_argument("pobs and pbackground must have a value for each point");
+    }
 
     bool weighted = true;
     float alpha = 0.01;
-- 
2.43.0


From 20cc60cc3f99426ab6481b69627ab5d7c8cb21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 042/181] fix: local_distribution_correction keeps the
 background where no observations have weight

---
 src/api/local_distribution_correction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index f9a938a..5e806f2 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -110,6 +110,9 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 Point p2 = points.get_point(index);
                 float curr_rho = structure.corr_background(p1, p2);
                 // curr_rho = 1;
+                if(!(curr_rho > 0))
+                    // Outside the reach of the structure function
+                    continue;
                 for(int t = 0; t < nT; t++) {
                     if(!gridpp::is_valid(pobs[t][index]) || !gridpp::is_valid(pbackground[t][index]))
                         continue;
@@ -126,7 +129,7 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 }
             }
 
-            if (count >= min_points) {
+            if (count > 0 && count >= min_points) {
                 // Create a calibration curve of ref,fcst, so that we can adjust the current
                 // background value
                 std::sort(ref_rho.begin(), ref_rho.end(), ::sort_pair_first<float, float>());
-- 
2.43.0


From 9c0e75f7e935b14c44286a0bbaf6c96ee133d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 043/181] fix: neighbourhood_score rejects an empty forecast
 for a non-empty grid

---
 src/api/neighbourhood_score.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/neighbourhood_score.cpp b/src/api/neighbourhood_score.cpp
index 652ab5d..3a39bd3 100644
--- a/src/api/neighbourhood_score.cpp
+++ b/src/api/neighbourhood_score.cpp
@@ -13,7 +13,13 @@ vec2 gridpp::neighbourhood_score(const Grid& grid, const Points& points, const v
         throw std::invalid_argument("half_width must be greater than 0");
     }
 
+    if(fcst.size() != grid.size()[0]) {
+        throw std::invalid_argument("Grid size is not the same as forecast values");
+    }
+
     int nY = fcst.size();
+    if(nY == 0)
+        return vec2();
     int nX = fcst[0].size();
 
     vec2 a = gridpp::init_vec2(nY, nX, 0);
-- 
2.43.0


From 984125ab272bbbe7691530f574ea9de14421d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 044/181] fix: compatible_size checks all rows

---
 src/api/util.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index c313a12..bf9671a 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -431,13 +431,27 @@ vec gridpp::interpolate(const vec& x, const vec& iX, const vec& iY) {
     return y;
 }
 bool gridpp::compatible_size(const Grid& grid, const vec2& v) {
-    return v.size() == 0 || (grid.size()[0] == v.size() && grid.size()[1] == v[0].size());
+    if(grid.size()[0] != v.size())
+        return false;
+    for(int y = 0; y < v.size(); y++) {
+        if(grid.size()[1] != v[y].size())
+            return false;
+    }
+    return true;
 }
 bool gridpp::compatible_size(const Grid& grid, const vec3& v) {
-    return v.size() == 0 || (v[0].size() == 0 || (grid.size()[0] == v[0].size() && grid.size()[1] == v[0][0].size()));
+    for(int t = 0; t < v.size(); t++) {
+        if(!gridpp::compatible_size(grid, v[t]))
+            return false;
+    }
+    return true;
 }
 bool gridpp::compatible_size(const Points& points, const vec2& v) {
-    return v.size() == 0 || points.size() == v[0].size();
+    for(int t = 0; t < v.size(); t++) {
+        if(points.size() != v[t].size())
+            return false;
+    }
+    return true;
 }
 bool gridpp::compatible_size(const Points& points, const vec& v) {
     return points.size() == v.size();
@@ -458,11 +472,10 @@ bool gridpp::compatible_size(const vec2& a, const vec3& b) {
     if(a.size() != b.size())
         return false;
 
-    // No x
-    if(a[0].size() == 0 && b[0].size() == 0)
-        return true;
-    if(a[0].size() != b[0].size())
-        return false;
+    for(int y = 0; y < a.size(); y++) {
+        if(a[y].size() != b[y].size())
+            return false;
+    }
     return true;
 }
 bool gridpp::compatible_size(const vec3& a, const vec3& b) {
-- 
2.43.0


From 21586500d92e83cdc4efd8d069686b6387baa16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 045/181] fix: Gamma transform handles values in the upper tail

---
 src/api/transform.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/api/transform.cpp b/src/api/transform.cpp
index d455d2e..cf08e25 100644
--- a/src/api/transform.cpp
+++ b/src/api/transform.cpp
@@ -166,16 +166,20 @@ gridpp::Gamma::Gamma(float shape, float scale, float tolerance) : m_gamma_dist(1
 float gridpp::Gamma::forward(float value) const {
     if(!gridpp::is_valid(value))
         return gridpp::MV;
-    float cdf = boost::math::cdf(m_gamma_dist, value + m_tolerance);
-    float result = boost::math::quantile(m_norm_dist, cdf);
-    return result;
+    double x = double(value) + m_tolerance;
+    double cdf = boost::math::cdf(m_gamma_dist, x);
+    // Use the complement in the upper tail, where the cdf is indistinguishable from 1
+    if(cdf > 0.5)
+        return -boost::math::quantile(m_norm_dist, boost::math::cdf(boost::math::complement(m_gamma_dist, x)));
+    return boost::math::quantile(m_norm_dist, cdf);
 }
 float gridpp::Gamma::backward(float value) const {
     if(!gridpp::is_valid(value))
         return gridpp::MV;
-   float cdf = boost::math::cdf(m_norm_dist, value);
-   float result = boost::math::quantile(m_gamma_dist, cdf) - m_tolerance;
-   return result;
+   // Use the complement in the upper tail, where the cdf is indistinguishable from 1
+   if(value > 0)
+       return boost::math::quantile(boost::math::complement(m_gamma_dist, boost::math::cdf(boost::math::complement(m_norm_dist, value)))) - m_tolerance;
+   return boost::math::quantile(m_gamma_dist, boost::math::cdf(m_norm_dist, value)) - m_tolerance;
 }
 float gridpp::Identity::forward(float value) const {
     return value;
-- 
2.43.0


From 6f294576633225868b2c12e399476b6fc58f3b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 046/181] fix: BoxCox::backward inverts transforms with a
 negative threshold

---
 src/api/transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/transform.cpp b/src/api/transform.cpp
index cf08e25..93f5e54 100644
--- a/src/api/transform.cpp
+++ b/src/api/transform.cpp
@@ -114,7 +114,7 @@ float gridpp::BoxCox::backward(float value) const {
    if(mThreshold == 0)
       rValue = exp(value);
    else {
-      if(value < -1.0 / mThreshold) {
+      if(1 + mThreshold * value < 0) {
          value = -1.0 / mThreshold;
       }
       rValue = pow(1 + mThreshold * value, 1 / mThreshold);
-- 
2.43.0


From 45c5a2e458c2c3419ecfb6be2f8566e6bc620857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 047/181] fix: gamma_inv checks sizes and handles level 1

---
 src/api/distribution.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index 4c3ce93..cf10001 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -4,6 +4,8 @@ using namespace gridpp;
 
 vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     int N = shape.size();
+    if(levels.size() != N || scale.size() != N)
+        throw std::invalid_argument("Levels, shape, and scale must be of the same size");
     for(int i = 0; i < N; i++) {
         if(levels[i] < 0 || levels[i] > 1 || !gridpp::is_valid(levels[i])) {
             std::stringstream ss;
@@ -25,6 +27,11 @@ vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
 
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
+        if(levels[i] == 1) {
+            // The distribution has no upper bound
+            results[i] = std::numeric_limits<float>::infinity();
+            continue;
+        }
         boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
         float value = boost::math::quantile(m_gamma_dist, levels[i]);
         results[i] = value;
-- 
2.43.0


From 3bbe47436c1fe306925ad59e7352daec60aa33b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 048/181] fix: vector version of sea_level_pressure reports
 invalid input instead of aborting

---
 src/api/pressure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index a48e1d8..6b682ef 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -85,7 +85,7 @@ vec gridpp::sea_level_pressure(const vec& ps, const vec& altitude, const vec&  t
         throw std::invalid_argument("slp: Input arguments must be of the same size");
 
     vec values(N);
-    #pragma omp parallel for
+    // Not run in parallel, since invalid input is reported by throwing an exception
     for(int i = 0; i < N; i++) {
         values[i] = gridpp::sea_level_pressure(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
     }
-- 
2.43.0


From 7770254caef5e9825b9509e9ffeab4553b788b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 049/181] fix: sea_level_pressure handles completely dry air
 below 50 m

---
 src/api/pressure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index 6b682ef..e56aa7b 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -69,7 +69,10 @@ float gridpp::sea_level_pressure(float ps, float altitude, float temperature, fl
     if (altitude >= 50.) {
         slp = ps * exp((g * altitude / R) / (Ts + 0.5 * a * altitude + e * Ch));
     } else if (altitude < 50.) {
-        float Tv = (273.15 + T) / (1 - 0.379 * (6.11 * pow(10.,  (((7.5 * dewpoint) / (237.7 + dewpoint))) )  / ps ));
+        float ed = 0; // Completely dry air has no dewpoint
+        if (gridpp::is_valid(dewpoint))
+            ed = 6.11 * pow(10.,  ((7.5 * dewpoint) / (237.7 + dewpoint)));
+        float Tv = (273.15 + T) / (1 - 0.379 * ed / ps);
         float Ck = ps * altitude / (29.27 * Tv);
         slp = ps + Ck;
     }
-- 
2.43.0


From e5ce488cd0f28293af671612ad06729b77e140dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 050/181] fix: dewpoint of completely dry air is missing, not
 the air temperature

---
 src/api/humidity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/api/humidity.cpp b/src/api/humidity.cpp
index 1857565..92f3ca5 100644
--- a/src/api/humidity.cpp
+++ b/src/api/humidity.cpp
@@ -3,7 +3,8 @@
 using namespace gridpp;
 
 float gridpp::dewpoint(float temperature, float relative_humidity) {
-    if(gridpp::is_valid(temperature) && gridpp::is_valid(relative_humidity)) {
+    // Completely dry air has no dewpoint
+    if(gridpp::is_valid(temperature) && gridpp::is_valid(relative_humidity) && relative_humidity > 0) {
         // Taken from https://github.com/metno/wdb2ts
         float tempC = temperature - 273.15;
         float e = (relative_humidity)*0.611*exp( (17.63 * tempC) / (tempC + 243.04) );
-- 
2.43.0


From 90ac28ce879c46214d8524e7d14141fe264e881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 051/181] fix: wind_direction of calm wind is 180 regardless of
 the signs of zero

---
 src/api/wind.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/wind.cpp b/src/api/wind.cpp
index bb0812c..b470ece 100644
--- a/src/api/wind.cpp
+++ b/src/api/wind.cpp
@@ -18,6 +18,8 @@ vec gridpp::wind_speed(const vec& xwind, const vec& ywind) {
     return values;
 }
 float gridpp::wind_direction(float xwind, float ywind) {
+    if(xwind == 0 && ywind == 0)
+        return 180;
     float dir = std::atan2(-xwind, -ywind) * 180 / gridpp::pi;
     if(dir < 0)
         dir += 360;
-- 
2.43.0


From c7214e8ac6b81177474001e22b4c5255533d3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 052/181] fix: remove unused counters that threads updated
 concurrently in neighbourhood

---
 src/api/neighbourhood.cpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index b0e4ffa..006bafd 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -68,7 +68,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
 
     double s_time = gridpp::clock();
     bool fast = true;
-    int count_stat = 0;
     int nY = input.size();
     int nX = input[0].size();
     vec2 output(nY);
@@ -207,7 +206,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         }
                     }
                     values[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                    count_stat += neighbourhood.size();
                 }
             }
             else {
@@ -221,7 +219,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         count++;
                     }
                     slivers[j] = gridpp::calc_statistic(sliver, statistic);
-                    count_stat += sliver.size();
                 }
                 for(int j = 0; j < nX; j++) {
                     vec curr;
@@ -230,7 +227,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         curr.push_back(slivers[jj]);
                     }
                     values[i][j] = gridpp::calc_statistic(curr, statistic);
-                    count_stat += curr.size();
                 }
             }
         }
@@ -285,7 +281,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         output = gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
     }
     double e_time = gridpp::clock() ;
-    // std::cout << count_stat << " " << e_time - s_time << " s" << std::endl;
     return output;
 }
 vec gridpp::get_neighbourhood_thresholds(const vec2& input, int num_thresholds) {
@@ -606,7 +601,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2(0);
@@ -642,7 +636,6 @@ namespace {
                     output[y][x] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[y][x] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
@@ -653,7 +646,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2();
@@ -693,7 +685,6 @@ namespace {
                     output[i][j] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
-- 
2.43.0


From b51a3c659a891ffdb2b8196c24ed2d37a8897e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 053/181] fix: gridding to points divides the points between
 the threads

---
 src/api/gridding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index e7692c1..79d23c4 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -46,7 +46,7 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
     vec lons = opoints.get_lons();
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         ivec I = ipoints.get_neighbours(lats[n], lons[n], radius);
         if(min_num <= 0 || I.size() >= min_num) {
@@ -120,7 +120,7 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
 
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         if(temp[n].size() > 0) {
             if(min_num <= 0 || temp[n].size() >= min_num)
-- 
2.43.0


From 63a48e3c4a0120c6a8e791c5a97c1fa3b7956737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 054/181] fix: downscaling to an empty grid gives an empty
 field instead of crashing

---
 src/api/bilinear.cpp |  4 ++--
 src/api/nearest.cpp  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 0b07f09..70d7765 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -37,7 +37,7 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     vec2 iInputLons = igrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = ogrid.size()[1];
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -66,7 +66,7 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = ogrid.size()[1];
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
diff --git a/src/api/nearest.cpp b/src/api/nearest.cpp
index 77e1bea..1150160 100644
--- a/src/api/nearest.cpp
+++ b/src/api/nearest.cpp
@@ -11,7 +11,7 @@ vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = ogrid.size()[1];
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -37,7 +37,7 @@ vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = ogrid.size()[1];
 ;
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -77,7 +77,7 @@ vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalue
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = ogrid.size()[1];
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -103,7 +103,7 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = ogrid.size()[1];
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -198,7 +198,7 @@ vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& iva
 vec2 gridpp::nearest(const Points& ipoints, const Points& opoints, const vec2& ivalues) {
     if(!gridpp::compatible_size(ipoints, ivalues)) {
         std::stringstream ss;
-        ss << "Input points (" << ipoints.size() << ") and values (" << ivalues[0].size() << ") size mismatch";
+        ss << "Input points (" << ipoints.size() << ") and values (" << ivalues.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     vec iOutputLats = opoints.get_lats();
-- 
2.43.0


From 997ddb394c963c3f10513ba3613923e5514340cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 055/181] fix: apply_curve reports unknown policies and empty
 curves before the parallel region

---
 src/api/curve.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index a5390df..a9175c7 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -3,6 +3,14 @@
 
 using namespace gridpp;
 
+namespace {
+    // Throws an exception if the policy is unknown. Exceptions cannot be thrown from within a parallel region.
+    void check_policy(gridpp::Extrapolation policy) {
+        if(policy != gridpp::OneToOne && policy != gridpp::MeanSlope && policy != gridpp::NearestSlope && policy != gridpp::Zero && policy != gridpp::Unchanged)
+            throw std::invalid_argument("Unknown extrapolation policy");
+    }
+}
+
 float gridpp::apply_curve(float input, const vec& curve_ref, const vec& curve_fcst, gridpp::Extrapolation policy_below, gridpp::Extrapolation policy_above) {
     if(curve_ref.size() != curve_fcst.size())
         throw std::invalid_argument("curve_ref and curve_fcst must be the same size");
@@ -81,6 +89,8 @@ vec gridpp::apply_curve(const vec& fcst, const vec& curve_ref, const vec& curve_
         throw std::invalid_argument("curve_ref and curve_fcst must be the same size");
     if(curve_ref.size() == 0 || curve_ref.size() == 0)
         throw std::invalid_argument("curve_ref and curve_fcst cannot have size 0");
+    check_policy(policy_below);
+    check_policy(policy_above);
 
     int N = fcst.size();
     vec output(N, gridpp::MV);
@@ -114,9 +124,21 @@ vec2 gridpp::apply_curve(const vec2& fcst, const vec3& curve_ref, const vec3& cu
         throw std::invalid_argument("Fcst and curve_ref dimension sizes mismatch");
     if(!gridpp::compatible_size(fcst, curve_fcst))
         throw std::invalid_argument("Fcst and curve_fcst dimension sizes mismatch");
+    check_policy(policy_below);
+    check_policy(policy_above);
 
     int nY = fcst.size();
+    if(nY == 0)
+        return vec2();
     int nX = fcst[0].size();
+    for(int y = 0; y < nY; y++) {
+        for(int x = 0; x < fcst[y].size(); x++) {
+            if(curve_ref[y][x].size() != curve_fcst[y][x].size())
+                throw std::invalid_argument("curve_ref and curve_fcst must be the same size");
+            if(curve_ref[y][x].size() == 0)
+                throw std::invalid_argument("curve_ref and curve_fcst cannot have size 0");
+        }
+    }
     vec2 output(nY);
     for(int y = 0; y < nY; y++) {
         output[y].resize(nX, gridpp::MV);
-- 
2.43.0


From 9da907b615ba3305604887f8890889c2f4aafda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 056/181] fix: distance rejects a negative number of neighbours
 instead of crashing

---
 src/api/distance.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/distance.cpp b/src/api/distance.cpp
index 4a3f9d3..e8e4af4 100644
--- a/src/api/distance.cpp
+++ b/src/api/distance.cpp
@@ -6,6 +6,8 @@ using namespace gridpp;
 vec gridpp::distance(const Grid& grid, const Points& points, int num) {
     if(grid.get_coordinate_type() != points.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
 
     int size = points.size();
     vec output(size);
@@ -33,6 +35,8 @@ vec gridpp::distance(const Grid& grid, const Points& points, int num) {
 vec2 gridpp::distance(const Grid& igrid, const Grid& ogrid, int num) {
     if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
 
     ivec size = ogrid.size();
     vec2 output(size[0]);
@@ -65,6 +69,8 @@ vec2 gridpp::distance(const Grid& igrid, const Grid& ogrid, int num) {
 vec2 gridpp::distance(const Points& points, const Grid& grid, int num) {
     if(points.get_coordinate_type() != grid.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
 
     ivec size = grid.size();
     vec2 output(size[0]);
@@ -96,6 +102,8 @@ vec2 gridpp::distance(const Points& points, const Grid& grid, int num) {
 vec gridpp::distance(const Points& ipoints, const Points& opoints, int num) {
     if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
 
     int size = opoints.size();
     vec output(size);
-- 
2.43.0


From b83ad477647b29e09ef1fba52d1a4297bd0a4dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 057/181] fix: doping_square on an empty grid does not crash

---
 src/api/doping.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/doping.cpp b/src/api/doping.cpp
index ef7b4ea..ec01cdd 100644
--- a/src/api/doping.cpp
+++ b/src/api/doping.cpp
@@ -26,6 +26,8 @@ vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Poin
         if(halfwidth[i] < 0)
             throw std::invalid_argument("All halfwidth must be greater than or equal to 0");
     }
+    if(Y == 0 || X == 0)
+        return background;
 
     vec2 output = background;
     bool check_elev = gridpp::is_valid(max_elev_diff);
-- 
2.43.0


From 3c751b160499e5f3dcbd5a3a518c89c96c3fb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 058/181] fix: fill_missing handles empty input and rejects
 rows of different sizes

---
 src/api/fill.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/fill.cpp b/src/api/fill.cpp
index 4b9ab1c..430789f 100644
--- a/src/api/fill.cpp
+++ b/src/api/fill.cpp
@@ -42,7 +42,13 @@ vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, co
 
 vec2 gridpp::fill_missing(const vec2& values) {
     int Y = values.size();
+    if(Y == 0)
+        return vec2();
     int X = values[0].size();
+    for(int y = 0; y < Y; y++) {
+        if(values[y].size() != X)
+            throw std::invalid_argument("All rows must have the same size");
+    }
     vec2 results_y(Y);
     vec2 results_x(Y);
     int count_y = 0;
-- 
2.43.0


From 204ed098d9e409842f4608de47a4391f5164abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 059/181] fix: downscale_probability checks the sizes of its
 input

---
 src/api/downscale_probability.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index fcfdb8e..df1f84a 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -5,16 +5,28 @@
 using namespace gridpp;
 
 vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const vec3& ivalues, const vec2& threshold, const ComparisonOperator& comparison_operator) {
+    if(ivalues.size() != igrid.size()[0])
+        throw std::invalid_argument("Grid size is not the same as values");
+    for(int y = 0; y < ivalues.size(); y++) {
+        if(ivalues[y].size() != igrid.size()[1])
+            throw std::invalid_argument("Grid size is not the same as values");
+        for(int x = 0; x < ivalues[y].size(); x++) {
+            if(ivalues[y][x].size() != ivalues[0][0].size())
+                throw std::invalid_argument("The number of ensemble members must be the same for all gridpoints");
+        }
+    }
+    if(!gridpp::compatible_size(ogrid, threshold))
+        throw std::invalid_argument("Output grid size is not the same as threshold");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
-    int nEns = ivalues[0][0].size();
+    int nLon = ogrid.size()[1];
 
-    vec2 output(nLat);
-    for(int i = 0; i < nLat; i++)
-        output[i].resize(nLon);
+    vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
+    if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
+        return output;
+    int nEns = ivalues[0][0].size();
 
     #pragma omp parallel for collapse(2)
     for(int i = 0; i < nLat; i++) {
-- 
2.43.0


From 9751d596e47ab26c6ee36e88aa9477fa4201461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 060/181] fix: mask_threshold_downscale checks the sizes of its
 input and the statistic

---
 .../mask_threshold_downscale_consensus.cpp    | 39 ++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 86e8ca2..119f08b 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -5,6 +5,8 @@
 using namespace gridpp;
 
 namespace{
+    // Throws an exception if the values do not have one value for each gridpoint and member
+    void check_size(const Grid& grid, const vec3& values, int num_members);
     vec2 mask_threshold_downscale(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const Statistic& statistic, const float quantile);
 }
 
@@ -17,16 +19,31 @@ vec2 gridpp::mask_threshold_downscale_quantile(const Grid& igrid, const Grid& og
 
 namespace {
     vec2 mask_threshold_downscale(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const Statistic& statistic, const float quantile) {
+        int nEns = 0;
+        if(ivalues_true.size() > 0 && ivalues_true[0].size() > 0)
+            nEns = ivalues_true[0][0].size();
+        ::check_size(igrid, ivalues_true, nEns);
+        ::check_size(igrid, ivalues_false, nEns);
+        ::check_size(igrid, threshold_values, nEns);
+        if(!gridpp::compatible_size(ogrid, threshold))
+            throw std::invalid_argument("Output grid size is not the same as threshold");
+        // Check these here, because exceptions cannot be thrown from within a parallel region
+        if(statistic == gridpp::Quantile) {
+            if(quantile < 0 || quantile > 1)
+                throw std::invalid_argument("Quantile must be between 0 and 1 inclusive");
+        }
+        else
+            gridpp::calc_statistic(vec(1, 0), statistic);
+
         vec2 iOutputLats = ogrid.get_lats();
         vec2 iOutputLons = ogrid.get_lons();
 
         int nLat = iOutputLats.size();
-        int nLon = iOutputLats[0].size();
-        int nEns = ivalues_true[0][0].size();
+        int nLon = ogrid.size()[1];
 
-        vec2 output(nLat);
-        for(int i = 0; i < nLat; i++)
-            output[i].resize(nLon);
+        vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
+        if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
+            return output;
 
         #pragma omp parallel for collapse(2)
         for(int i = 0; i < nLat; i++) {
@@ -80,4 +97,16 @@ namespace {
         }
         return output;
     }
+    void check_size(const Grid& grid, const vec3& values, int num_members) {
+        if(values.size() != grid.size()[0])
+            throw std::invalid_argument("Grid size is not the same as values");
+        for(int y = 0; y < values.size(); y++) {
+            if(values[y].size() != grid.size()[1])
+                throw std::invalid_argument("Grid size is not the same as values");
+            for(int x = 0; x < values[y].size(); x++) {
+                if(values[y][x].size() != num_members)
+                    throw std::invalid_argument("The number of ensemble members must be the same for all gridpoints");
+            }
+        }
+    }
 }
-- 
2.43.0


From fc9372251ec79af89c1cc89507fcf74c3837133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 061/181] fix: smart checks the size of the values

---
 src/api/smart.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 8bd6b4b..440f652 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -10,6 +10,10 @@ namespace {
     };
 }
 vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, int num, const gridpp::StructureFunction& structure) {
+    if(!gridpp::compatible_size(igrid, ivalues))
+        throw std::invalid_argument("Grid size is not the same as values");
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
     vec2 ilats = igrid.get_lats();
     vec2 ilons = igrid.get_lons();
     vec2 ielevs = igrid.get_elevs();
-- 
2.43.0


From ac1a832cb57dd76a6fcbc9dc5cf8b33c7b875ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 062/181] fix: full_gradient rejects gradients of the wrong
 size instead of crashing

---
 src/api/gradient.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index 34065c0..c8b6cda 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -7,16 +7,15 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec2& iva
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
 
-    if(ivalues.size() != igrid.size()[0] || ivalues[0].size() != igrid.size()[1])
+    if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Values is the wrong size");
 
     if(laf_gradient.size() > 0)
-        if(laf_gradient.size() != igrid.size()[0] || laf_gradient[0].size() != igrid.size()[1])
-
+        if(!gridpp::compatible_size(igrid, laf_gradient))
             throw std::invalid_argument("Laf gradient is the wrong size");
 
     if(elev_gradient.size() > 0)
-        if(elev_gradient.size() != igrid.size()[0] || elev_gradient[0].size() != igrid.size()[1])
+        if(!gridpp::compatible_size(igrid, elev_gradient))
             throw std::invalid_argument("Elevation gradient is the wrong size");
 
     vec2 oelevs = ogrid.get_elevs();
@@ -90,6 +89,13 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
     int nX = ogrid.size()[1];
     int nTime = ivalues.size();
 
+    if(!gridpp::compatible_size(igrid, ivalues))
+        throw std::invalid_argument("Values is the wrong size");
+    if(elev_gradient.size() != 0 && (elev_gradient.size() != nTime || !gridpp::compatible_size(igrid, elev_gradient)))
+        throw std::invalid_argument("Elevation gradient is the wrong size");
+    if(laf_gradient.size() != 0 && (laf_gradient.size() != nTime || !gridpp::compatible_size(igrid, laf_gradient)))
+        throw std::invalid_argument("Laf gradient is the wrong size");
+
     //Outputs
     vec2 oelevs = ogrid.get_elevs();
     vec2 olafs = ogrid.get_lafs();
@@ -100,14 +106,12 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
         fields.push_back(ivalues[t]);
     }
     if(elev_gradient.size() != 0) {
-        assert(gridpp::compatible_size(elev_gradient, ivalues));
         for(int t = 0; t < nTime; t++) {
             fields.push_back(elev_gradient[t]);
         }
         fields.push_back(igrid.get_elevs());
     }
     if(laf_gradient.size() != 0) {
-        assert(gridpp::compatible_size(laf_gradient, ivalues));
         for(int t = 0; t < nTime; t++) {
             fields.push_back(laf_gradient[t]);
         }
@@ -183,16 +187,12 @@ vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2&
     vec delev_gradient;
     vec delevs;
     if(elev_gradient.size() != 0) {
-        assert(elev_gradient.size() == ivalues.size());
-        assert(elev_gradient[0].size() == ivalues[0].size());
         delev_gradient = gridpp::downscaling(igrid, opoints, elev_gradient, downscaler);
         delevs = gridpp::downscaling(igrid, opoints, igrid.get_elevs(), downscaler);
     }
     vec dlaf_gradient;
     vec dlafs;
     if(laf_gradient.size() != 0) {
-        assert(laf_gradient.size() == ivalues.size());
-        assert(laf_gradient[0].size() == ivalues[0].size());
         dlaf_gradient = gridpp::downscaling(igrid, opoints, laf_gradient, downscaler);
         dlafs = gridpp::downscaling(igrid, opoints, igrid.get_lafs(), downscaler);
     }
@@ -231,6 +231,13 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec3&
     int nPoints = opoints.size();
     int nTime = ivalues.size();
 
+    if(!gridpp::compatible_size(igrid, ivalues))
+        throw std::invalid_argument("Values is the wrong size");
+    if(elev_gradient.size() != 0 && (elev_gradient.size() != nTime || !gridpp::compatible_size(igrid, elev_gradient)))
+        throw std::invalid_argument("Elevation gradient is the wrong size");
+    if(laf_gradient.size() != 0 && (laf_gradient.size() != nTime || !gridpp::compatible_size(igrid, laf_gradient)))
+        throw std::invalid_argument("Laf gradient is the wrong size");
+
     vec2 output = gridpp::downscaling(igrid, opoints, ivalues, downscaler);
     vec2 delev_gradient;
     vec delevs;
-- 
2.43.0


From 201ac79519efd31b1457271c00907c361c167fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 063/181] fix: gridding reports an invalid statistic and
 handles an empty output grid

---
 src/api/gridding.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index 79d23c4..07a4f25 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -10,6 +10,8 @@ vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values,
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Check the statistic here, because exceptions cannot be thrown from within a parallel region
+    gridpp::calc_statistic(vec(1, 0), statistic);
 
     int Y = grid.size()[0];
     int X = grid.size()[1];
@@ -40,6 +42,8 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Check the statistic here, because exceptions cannot be thrown from within a parallel region
+    gridpp::calc_statistic(vec(1, 0), statistic);
 
     int N = opoints.size();
     vec lats = opoints.get_lats();
@@ -65,6 +69,8 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Check the statistic here, because exceptions cannot be thrown from within a parallel region
+    gridpp::calc_statistic(vec(1, 0), statistic);
 
     int Y = grid.size()[0];
     int X = grid.size()[1];
@@ -77,6 +83,9 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
 
     int S = values.size();
 
+    if(Y == 0 || X == 0)
+        return gridpp::init_vec2(Y, X, gridpp::MV);
+
     // Add value to the nearest grid point in the grid
     // Not parallelizable, because two threads might be writing to the same piece of memory
     for(int s = 0; s < S; s++) {
@@ -103,6 +112,8 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Check the statistic here, because exceptions cannot be thrown from within a parallel region
+    gridpp::calc_statistic(vec(1, 0), statistic);
 
     int N = opoints.size();
     vec lats = ipoints.get_lats();
@@ -110,6 +121,8 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
     vec2 temp(N);
 
     int S = values.size();
+    if(N == 0)
+        return vec();
 
     // Add value to the nearest grid point in the grid
     // Not parallelizable, because two threads might be writing to the same piece of memory
-- 
2.43.0


From b278ec35aa69803878bc8baa41f08830a03fd61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 064/181] fix: neighbourhood operations reject invalid
 statistics, quantiles and uneven rows instead of crashing

---
 src/api/neighbourhood.cpp | 45 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 006bafd..55a5d13 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -8,12 +8,18 @@ namespace {
     vec2 neighbourhood_brute_force(const vec2& input, int halfwidth, gridpp::Statistic statistic, float quantile);
     vec2 neighbourhood_brute_force(const vec3& input, int halfwidth, gridpp::Statistic statistic, float quantile);
     vec3 vec2_to_vec3(const vec2& input);
+    // Throws an exception if the rows (or the number of members) do not all have the same size
+    void check_rectangular(const vec2& input);
+    void check_rectangular(const vec3& input);
 }
 vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic statistic) {
     if(halfwidth < 0)
         throw std::invalid_argument("Half width must be > 0");
     if(statistic == gridpp::Quantile)
         throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
+    // Check the statistic here, because exceptions cannot be thrown from within a parallel region
+    gridpp::calc_statistic(vec(1, 0), statistic);
+    ::check_rectangular(input);
     if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
         return vec2();
 
@@ -63,6 +69,9 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         throw std::invalid_argument("Half width must be > 0");
     if(statistic == gridpp::Quantile)
         throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
+    // Check the statistic here, because exceptions cannot be thrown from within a parallel region
+    gridpp::calc_statistic(vec(1, 0), statistic);
+    ::check_rectangular(input);
     if(input.size() == 0 || input[0].size() == 0)
         return vec2();
 
@@ -286,6 +295,7 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
 vec gridpp::get_neighbourhood_thresholds(const vec2& input, int num_thresholds) {
     if(num_thresholds <= 0)
         throw std::invalid_argument("num_thresholds must be > 0");
+    ::check_rectangular(input);
 
     if(input.size() == 0 || input[0].size() == 0)
         return vec();
@@ -311,6 +321,7 @@ vec gridpp::get_neighbourhood_thresholds(const vec2& input, int num_thresholds)
 vec gridpp::get_neighbourhood_thresholds(const vec3& input, int num_thresholds) {
     if(num_thresholds <= 0)
         throw std::invalid_argument("num_thresholds must be > 0");
+    ::check_rectangular(input);
 
     if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
         return vec();
@@ -345,6 +356,7 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, float quantile, int
 vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile, int halfwidth, const vec& thresholds) {
     if(halfwidth < 0)
         throw std::invalid_argument("Half width must be > 0");
+    ::check_rectangular(input);
 
     if(input.size() == 0 || input[0].size() == 0)
         return vec2();
@@ -352,7 +364,7 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     int nY = input.size();
     int nX = input[0].size();
 
-    if(!(quantile.size() == 1 && quantile[0].size() == 1) && !(quantile.size() == nY && quantile[0].size() == nX))
+    if(!(quantile.size() == 1 && quantile[0].size() == 1) && !(quantile.size() == nY && gridpp::compatible_size(quantile, input)))
         throw std::invalid_argument("Quantile must be the same size as input, or size (1, 1)");
 
     for(int y = 0; y < quantile.size(); y++) {
@@ -459,6 +471,7 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, float quantile, int
 vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile, int halfwidth, const vec& thresholds) {
     if(halfwidth < 0)
         throw std::invalid_argument("Half width must be > 0");
+    ::check_rectangular(input);
 
     if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
         return vec2();
@@ -467,7 +480,7 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     int nX = input[0].size();
     int nE = input[0][0].size();
 
-    if(!(quantile.size() == 1 && quantile[0].size() == 1) && !(quantile.size() == nY && quantile[0].size() == nX))
+    if(!(quantile.size() == 1 && quantile[0].size() == 1) && !(quantile.size() == nY && gridpp::compatible_size(quantile, input)))
         throw std::invalid_argument("Quantile must have the same Y, X size as input, or have size (1, 1)");
 
     for(int y = 0; y < quantile.size(); y++) {
@@ -598,6 +611,12 @@ namespace {
     vec2 neighbourhood_brute_force(const vec2& input, int halfwidth, gridpp::Statistic statistic, float quantile) {
         if(halfwidth < 0)
             throw std::invalid_argument("Half width must be > 0");
+        // Check these here, because exceptions cannot be thrown from within a parallel region
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(1, 0), quantile);
+        else
+            gridpp::calc_statistic(vec(1, 0), statistic);
+        ::check_rectangular(input);
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
@@ -643,6 +662,12 @@ namespace {
     vec2 neighbourhood_brute_force(const vec3& input, int halfwidth, gridpp::Statistic statistic, float quantile) {
         if(halfwidth < 0)
             throw std::invalid_argument("Half width must be > 0");
+        // Check these here, because exceptions cannot be thrown from within a parallel region
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(1, 0), quantile);
+        else
+            gridpp::calc_statistic(vec(1, 0), statistic);
+        ::check_rectangular(input);
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
@@ -703,4 +728,20 @@ namespace {
         }
         return output;
     }
+    void check_rectangular(const vec2& input) {
+        for(int y = 0; y < input.size(); y++) {
+            if(input[y].size() != input[0].size())
+                throw std::invalid_argument("All rows must have the same size");
+        }
+    }
+    void check_rectangular(const vec3& input) {
+        for(int y = 0; y < input.size(); y++) {
+            if(input[y].size() != input[0].size())
+                throw std::invalid_argument("All rows must have the same size");
+            for(int x = 0; x < input[y].size(); x++) {
+                if(input[y][x].size() != input[0][0].size())
+                    throw std::invalid_argument("The number of ensemble members must be the same for all gridpoints");
+            }
+        }
+    }
 }
-- 
2.43.0


From 0269c3ea82a81058de9a0d48b05796f3b3b0f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 065/181] fix: neighbourhood_score reports an unknown metric

---
 src/api/neighbourhood_score.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/neighbourhood_score.cpp b/src/api/neighbourhood_score.cpp
index 3a39bd3..ed7f033 100644
--- a/src/api/neighbourhood_score.cpp
+++ b/src/api/neighbourhood_score.cpp
@@ -17,6 +17,9 @@ vec2 gridpp::neighbourhood_score(const Grid& grid, const Points& points, const v
         throw std::invalid_argument("Grid size is not the same as forecast values");
     }
 
+    // Check the metric here, because exceptions cannot be thrown from within a parallel region
+    gridpp::calc_score(1, 1, 1, 1, metric);
+
     int nY = fcst.size();
     if(nY == 0)
         return vec2();
-- 
2.43.0


From 32c284dcc5a8992558f240a771fa6b8d63f82b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 066/181] fix: window reports invalid statistics and uneven
 rows

---
 src/api/window.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index 6ba04ca..99ca341 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -21,6 +21,13 @@ vec2 gridpp::window(const vec2& array,
         return gridpp::init_vec2(nY, 0);
     }
 
+    for(int y = 0; y < nY; y++) {
+        if(array[y].size() != nX)
+            throw std::invalid_argument("All rows must have the same size");
+    }
+    // Check the statistic here, because exceptions cannot be thrown from within a parallel region
+    gridpp::calc_statistic(vec(1, 0), statistic);
+
     vec2 output = gridpp::init_vec2(nY, nX, gridpp::MV);
 
     if(length % 2 == 0 && !before) {
-- 
2.43.0


From 3896990f297a7a685250446e8ed95a1dca88dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 067/181] fix: get_point rejects an index outside the points

---
 src/api/points.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 442f4ef..ee40656 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -126,6 +126,8 @@ CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
 }
 gridpp::Point gridpp::Points::get_point(int index) const {
+    if(index < 0 || index >= size())
+        throw std::invalid_argument("Invalid point index");
     return Point(mLats[index], mLons[index], mElevs[index], mLafs[index], get_coordinate_type(), mTree.get_x()[index], mTree.get_y()[index], mTree.get_z()[index]);
 }
 gridpp::Points gridpp::Points::subset(const ivec& indices) const {
-- 
2.43.0


From 75021ad79d03cbecded0b8e6bbec33ab572a62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 068/181] fix: Grid rejects coordinates of uneven size

---
 src/api/grid.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index e267f12..34a7f27 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -17,6 +17,12 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
         mX = 0;
         return;
     }
+    if(!gridpp::compatible_size(lats, lons))
+        throw std::invalid_argument("Cannot create grid with latitudes and longitudes of unequal size");
+    for(int i = 0; i < lats.size(); i++) {
+        if(lats[i].size() != lats[0].size())
+            throw std::invalid_argument("Cannot create grid with rows of unequal length");
+    }
     mLats = lats;
     mLons = lons;
     mElevs = elevs;
@@ -38,14 +44,14 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
     KDTree test = KDTree(lats0, lons0, type);
     mTree = test;
 
-    if(mElevs.size() != lats.size() || mElevs[0].size() != lats[0].size()) {
+    if(!gridpp::compatible_size(mElevs, lats)) {
         mElevs.clear();
         mElevs.resize(lats.size());
         for(int i = 0; i < lats.size(); i++) {
             mElevs[i].resize(lats[0].size(), gridpp::MV);
         }
     }
-    if(mLafs.size() != lats.size() || mLafs[0].size() != lats[0].size()) {
+    if(!gridpp::compatible_size(mLafs, lats)) {
         mLafs.clear();
         mLafs.resize(lats.size());
         for(int i = 0; i < lats.size(); i++) {
-- 
2.43.0


From ea0affd1de8b68080792b9dfa581c260314363c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 069/181] fix: structure functions reject uneven scales and
 empty grids

---
 src/api/structure.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index 77c51ab..5412b92 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -205,9 +205,9 @@ gridpp::BarnesStructure::BarnesStructure(Grid grid, vec2 h, vec2 v, vec2 w, floa
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid size cannot be zero when the scales vary in space");
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
@@ -381,9 +381,9 @@ gridpp::SoarStructure::SoarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid size cannot be zero when the scales vary in space");
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
@@ -530,9 +530,9 @@ gridpp::ToarStructure::ToarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid size cannot be zero when the scales vary in space");
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
@@ -677,9 +677,9 @@ gridpp::PowerlawStructure::PowerlawStructure(Grid grid, vec2 h, vec2 v, vec2 w,
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid size cannot be zero when the scales vary in space");
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
@@ -824,9 +824,9 @@ gridpp::LinearStructure::LinearStructure(Grid grid, vec2 h, vec2 v, vec2 w, floa
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid size cannot be zero when the scales vary in space");
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
-- 
2.43.0


From 0628a173114d8de0f411aa8e1b03e3a179192c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 070/181] fix: ensemble optimal interpolation on grids rejects
 uneven ensembles

---
 src/api/oi_ensi.cpp       | 11 +++++++++--
 src/api/oi_ensi_multi.cpp | 27 +++++++++++++++++++--------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index f094958..963ae5b 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -61,9 +61,9 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != nY || background[0].size() != nX) {
+    if(!gridpp::compatible_size(bgrid.get_lats(), background)) {
         std::stringstream ss;
-        ss << "Input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     int nE = background[0][0].size();
@@ -92,6 +92,13 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
         throw std::invalid_argument(ss.str());
     }
 
+    for(int y = 0; y < nY; y++) {
+        for(int x = 0; x < nX; x++) {
+            if(background[y][x].size() != nE)
+                throw std::invalid_argument("All gridpoints in the background must have the same number of ensemble members");
+        }
+    }
+
     gridpp::Points bpoints = bgrid.to_points();
     vec2 background1 = gridpp::init_vec2(nY * nX, nE);
     int count = 0;
diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index e29cfb6..e7d71cd 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -72,18 +72,18 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    if(background.size() != nY || background[0].size() != nX) {
+    if(!gridpp::compatible_size(bgrid.get_lats(), background)) {
         std::stringstream ss;
         ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     int nE = background[0][0].size();
-    if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
+    if(!gridpp::compatible_size(bgrid.get_lats(), background_corr) || background_corr[0][0].size() != nE) {
         std::stringstream ss;
         ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(bratios.size() != nY || bratios[0].size() != nX) {
+    if(!gridpp::compatible_size(bgrid, bratios)) {
         std::stringstream ss;
         ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
@@ -109,6 +109,10 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Grid& bgrid,
         throw std::invalid_argument(ss.str());
     }
  
+    for(int y = 0; y < nY; y++) {
+        ::check_members(background[y], nE);
+        ::check_members(background_corr[y], nE);
+    }
     gridpp::Points bpoints = bgrid.to_points();
     vec2 background1 = gridpp::init_vec2(nY * nX, nE);
     vec2 background_corr1 = gridpp::init_vec2(nY * nX, nE);
@@ -173,13 +177,13 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    if(background.size() != nY || background[0].size() != nX) {
+    if(!gridpp::compatible_size(bgrid.get_lats(), background)) {
         std::stringstream ss;
         ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     int nE = background[0][0].size();
-    if(bratios.size() != nY || bratios[0].size() != nX) {
+    if(!gridpp::compatible_size(bgrid, bratios)) {
         std::stringstream ss;
         ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
@@ -200,6 +204,9 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Grid& bgrid,
         throw std::invalid_argument(ss.str());
     }
  
+    for(int y = 0; y < nY; y++) {
+        ::check_members(background[y], nE);
+    }
     gridpp::Points bpoints = bgrid.to_points();
     vec2 background1 = gridpp::init_vec2(nY * nX, nE);
     vec bratios1(nY * nX);
@@ -264,18 +271,18 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    if(background.size() != nY || background[0].size() != nX) {
+    if(!gridpp::compatible_size(bgrid.get_lats(), background)) {
         std::stringstream ss;
         ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     int nE = background[0][0].size();
-    if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
+    if(!gridpp::compatible_size(bgrid.get_lats(), background_corr) || background_corr[0][0].size() != nE) {
         std::stringstream ss;
         ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(bratios.size() != nY || bratios[0].size() != nX) {
+    if(!gridpp::compatible_size(bgrid, bratios)) {
         std::stringstream ss;
         ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
@@ -301,6 +308,10 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         throw std::invalid_argument(ss.str());
     }
  
+    for(int y = 0; y < nY; y++) {
+        ::check_members(background[y], nE);
+        ::check_members(background_corr[y], nE);
+    }
     gridpp::Points bpoints = bgrid.to_points();
     vec2 background1 = gridpp::init_vec2(nY * nX, nE);
     vec2 background_corr1 = gridpp::init_vec2(nY * nX, nE);
-- 
2.43.0


From 529747561416c7bd386113f57be77d93aca87cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 071/181] fix: optimal interpolation ignores observations
 without a valid error and never inverts a singular matrix

---
 src/api/oi.cpp            |  2 +-
 src/api/oi_ensi.cpp       |  2 +-
 src/api/oi_ensi_multi.cpp | 22 +++++++++++++++++-----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index d562f2a..e5d3ce8 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -263,7 +263,7 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index]) && gridpp::is_valid(pbackground[index])) {
+            if(gridpp::is_valid(pobs[index]) && gridpp::is_valid(pbackground[index]) && gridpp::is_valid(pratios[index])) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 963ae5b..85b7f52 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -216,7 +216,7 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     for(int i = 0; i < nS; i++) {
         vec values;
         values.reserve(nValidEns);
-        is_valid_obs[i] = gridpp::is_valid(pobs[i]);
+        is_valid_obs[i] = gridpp::is_valid(pobs[i]) && gridpp::is_valid(psigmas[i]);
         for(int k = 0; k < nValidEns; k++) {
             values.push_back(gY[i][validEns[k]]);
             if(!gridpp::is_valid(values[k]))
diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index e7d71cd..9a6bc71 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -20,6 +20,12 @@ namespace {
             return left.first < right.first;
         };
     };
+    // Invert a symmetric matrix, also when observations are perfectly redundant
+    bool invert(const mattype& input, mattype& output) {
+        if(arma::rcond(input) > 1e-10 && arma::inv(output, input))
+            return true;
+        return arma::pinv(output, input);
+    }
     void check_members(const vec2& input, int nEns) {
         for(int i = 0; i < input.size(); i++) {
             if(input[i].size() != nEns)
@@ -501,7 +507,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2); 
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            bool is_valid_obs = true;
+            bool is_valid_obs = gridpp::is_valid(pratios[index]);
             for(int e = 0; e < nValidEns; e++) {
                 if(!gridpp::is_valid(pobs[index][validEns[e]]))
                     is_valid_obs = false;
@@ -603,7 +609,10 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
         //  note: correlation between the RIGTH background and the RIGHT background (..._rr)
         mattype lR_rr = lLoc2D % (lZ_R * lZ_R.t());
         // lK(1, lS): Kalman gain
-        mattype lK = lr_lr * arma::inv(lR_rr + lR_dd);
+        mattype lRinv;
+        if(!::invert(lR_rr + lR_dd, lRinv))
+            continue;
+        mattype lK = lr_lr * lRinv;
         // dx(1, nValidEns): analysis increment 
         mattype dx = std_ratios_lr * (lK * lInnov);
         ///////////////////////////////
@@ -776,7 +785,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            bool is_valid_obs = true;
+            bool is_valid_obs = gridpp::is_valid(pratios[index]);
             for(int e = 0; e < nValidEns; e++) {
                 if(!gridpp::is_valid(pobs[index][validEns[e]]))
                     is_valid_obs = false;
@@ -856,7 +865,10 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
                 lCorr2D(i, j) = corr[j];
         } // end loop over closer observations
         // lK(1, lS): Kalman gain
-        mattype lK = lCorr1D * arma::inv(lCorr2D + lR_dd);
+        mattype lRinv;
+        if(!::invert(lCorr2D + lR_dd, lRinv))
+            continue;
+        mattype lK = lCorr1D * lRinv;
         // dx(1, nValidEns): analysis increment 
         mattype dx = std_ratios_lr * (lK * lInnov);
         ///////////////////////////////
@@ -1071,7 +1083,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index])) {
+            if(gridpp::is_valid(pobs[index]) && gridpp::is_valid(pratios[index])) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From 87e89db8f3314a2269745acd3bac64c20d6ebc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 072/181] fix: Grid::get_point rejects indices outside the grid

---
 src/api/grid.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 34a7f27..e3e7940 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -237,6 +237,8 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
     return true;
 }
 gridpp::Point gridpp::Grid::get_point(int y_index, int x_index) const {
+    if(y_index < 0 || y_index >= mLats.size() || x_index < 0 || x_index >= mX)
+        throw std::invalid_argument("Invalid grid index");
     int index = y_index * mX + x_index;
     return Point(mLats[y_index][x_index], mLons[y_index][x_index], mElevs[y_index][x_index], mLafs[y_index][x_index], get_coordinate_type(), mTree.get_x()[index], mTree.get_y()[index], mTree.get_z()[index]);
 }
-- 
2.43.0


From 00bd3657bc3091db47a834b8186d9053331c79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 073/181] fix: calc_gradient and calc_quantile reject uneven
 rows

---
 src/api/calc_gradient.cpp | 4 ++++
 src/api/util.cpp          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index ef4a61a..2a595f0 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -16,6 +16,10 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
         throw std::invalid_argument("base input has no size");
     if(!gridpp::compatible_size(base, values))
         throw std::invalid_argument("base is not the same size as values");
+    for(int y = 0; y < base.size(); y++) {
+        if(base[y].size() != base[0].size())
+            throw std::invalid_argument("All rows in base must have the same length");
+    }
 
     int nY = base.size();
     int nX = base[0].size();
diff --git a/src/api/util.cpp b/src/api/util.cpp
index bf9671a..34b43ab 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -191,6 +191,10 @@ vec2 gridpp::calc_quantile(const vec3& array, const vec2& quantile) {
     if(Y == 0)
         return vec2();
     int X = array[0].size();
+    for(int y = 0; y < Y; y++) {
+        if(array[y].size() != X)
+            throw std::invalid_argument("All rows in array must have the same length");
+    }
     if(X == 0)
         return vec2();
     int T = array[0][0].size();
-- 
2.43.0


From ecd99703ba50928dff917465a79c6f246b242335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 074/181] fix: apply_curve with a curve per gridpoint rejects
 uneven rows

---
 src/api/curve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index a9175c7..af8cb79 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -132,7 +132,9 @@ vec2 gridpp::apply_curve(const vec2& fcst, const vec3& curve_ref, const vec3& cu
         return vec2();
     int nX = fcst[0].size();
     for(int y = 0; y < nY; y++) {
-        for(int x = 0; x < fcst[y].size(); x++) {
+        if(fcst[y].size() != nX)
+            throw std::invalid_argument("All rows in fcst must have the same length");
+        for(int x = 0; x < nX; x++) {
             if(curve_ref[y][x].size() != curve_fcst[y][x].size())
                 throw std::invalid_argument("curve_ref and curve_fcst must be the same size");
             if(curve_ref[y][x].size() == 0)
-- 
2.43.0


From f6fca25a818bfea89738717d01cbd0a4d5401b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 075/181] fix: points created from a tree have missing
 elevations and land fractions when these are omitted

---
 src/api/points.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index ee40656..f5a40d5 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -30,11 +30,18 @@ gridpp::Points::Points(vec lats, vec lons, vec elevs, vec lafs, CoordinateType t
     }
 }
 gridpp::Points::Points(KDTree tree, vec elevs, vec lafs) {
+    int N = tree.size();
+    if(elevs.size() != 0 && elevs.size() != N)
+        throw std::invalid_argument("'elevs' must either be size 0 or the same size at lats/lons");
+    if(lafs.size() != 0 && lafs.size() != N)
+        throw std::invalid_argument("'lafs' must either be size 0 or the same size at lats/lons");
     mElevs = elevs;
     mLafs = lafs;
     mTree = tree;
     mLats = tree.get_lats();
     mLons = tree.get_lons();
+    mElevs.resize(N, gridpp::MV);
+    mLafs.resize(N, gridpp::MV);
 }
 
 int gridpp::Points::get_num_neighbours(float lat, float lon, float radius, bool include_match) const {
-- 
2.43.0


From fb7298bacbbdb1e6549dc4cf6affeb4ec4010307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 076/181] fix: a grid without points keeps its coordinate type

---
 src/api/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index e3e7940..e54d1ad 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -13,7 +13,7 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
     if(lats.size() == 0) {
         vec lats;
         vec lons;
-        mTree = KDTree(lats, lons);
+        mTree = KDTree(lats, lons, type);
         mX = 0;
         return;
     }
-- 
2.43.0


From b2b6ac6c4f90bd1f078573a56537bfbc0d78189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 077/181] fix: KDTree rejects uneven coordinates and an empty
 tree has no nearest neighbour

---
 src/api/kdtree.cpp | 7 ++++++-
 src/api/util.cpp   | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index 79ba642..c63497a 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -4,6 +4,8 @@
 using namespace gridpp;
 
 gridpp::KDTree::KDTree(vec lats, vec lons, CoordinateType type) {
+    if(lats.size() != lons.size())
+        throw std::invalid_argument("Cannot create KDTree with unequal lat and lon sizes");
     mLats = lats;
     mLons = lons;
     mType = type;
@@ -102,7 +104,10 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     return ret;
 }
 int gridpp::KDTree::get_nearest_neighbour(float lat, float lon, bool include_match) const {
-    return get_closest_neighbours(lat, lon, 1, include_match)[0];
+    ivec indices = get_closest_neighbours(lat, lon, 1, include_match);
+    if(indices.size() == 0)
+        return -1;
+    return indices[0];
 }
 float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lon2, CoordinateType type) {
     if(type == gridpp::Cartesian) {
diff --git a/src/api/util.cpp b/src/api/util.cpp
index 34b43ab..fa6bfd8 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -605,6 +605,8 @@ bool gridpp::point_in_rectangle(const Point& A, const Point& B, const Point& C,
 
 bool gridpp::convert_coordinates(const vec& lats, const vec& lons, CoordinateType type, vec& x_coords, vec& y_coords, vec& z_coords) {
     int N = lats.size();
+    if(lons.size() != N)
+        throw std::invalid_argument("Cannot convert coordinates with unequal lat and lon sizes");
     x_coords.resize(N);
     y_coords.resize(N);
     z_coords.resize(N);
-- 
2.43.0


From 88c3b4fa4d51b42a515c47619c032cef5d240b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 078/181] fix: clearing or comparing options does not change
 which keys count as used

---
 src/client/Options.cpp | 17 +++++++++++------
 src/client/Options.h   |  3 +++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/client/Options.cpp b/src/client/Options.cpp
index 0cdc33a..4051de1 100644
--- a/src/client/Options.cpp
+++ b/src/client/Options.cpp
@@ -27,6 +27,7 @@ void Options::addOptions(std::string iOptionString) {
 }
 void Options::clear() {
    mPairs.clear();
+   mHasBeenAccessed.clear();
 }
 
 std::string Options::toString() const {
@@ -64,6 +65,14 @@ bool Options::hasValue(const std::string& iKey) const {
    return false;
 }
 
+std::string Options::getString(const std::string& iKey) const {
+   for(int i = 0; i < mPairs.size(); i++) {
+      if(mPairs[i].first == iKey)
+         return mPairs[i].second;
+   }
+   return "";
+}
+
 bool Options::check() const {
    std::vector<std::string> unChecked;
    for(int i = 0; i < mPairs.size(); i++) {
@@ -96,9 +105,7 @@ bool Options::operator==(const Options &right) const {
       std::string value = mPairs[i].second;
       if(!right.hasValue(key))
          return false;
-      std::string s = "";
-      right.getValue(key, s);
-      if(value != s)
+      if(value != right.getString(key))
          return false;
    }
    for(int i = 0; i < right.mPairs.size(); i++) {
@@ -106,9 +113,7 @@ bool Options::operator==(const Options &right) const {
       std::string value = right.mPairs[i].second;
       if(!hasValue(key))
          return false;
-      std::string s = "";
-      getValue(key, s);
-      if(value != s)
+      if(value != getString(key))
          return false;
    }
    return true;
diff --git a/src/client/Options.h b/src/client/Options.h
index b69b5d0..f639cd1 100644
--- a/src/client/Options.h
+++ b/src/client/Options.h
@@ -124,6 +124,9 @@ class Options {
       //! Parse a string with a single option "key=value"
       void addOption(std::string iOptionString);
 
+      //! The value of a key as it was written, without marking the key as accessed
+      std::string getString(const std::string& iKey) const;
+
       typedef std::pair<std::string,std::string> KeyValue;  // key, value
       std::vector<KeyValue> mPairs;
       mutable std::set<std::string> mHasBeenAccessed;
-- 
2.43.0


From 322f1fd11a92b14563658867a4f1d7d1860b934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 079/181] fix: empty elements in option lists have a defined
 value

---
 src/client/Options.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Options.h b/src/client/Options.h
index f639cd1..22569bf 100644
--- a/src/client/Options.h
+++ b/src/client/Options.h
@@ -92,7 +92,7 @@ class Options {
                   if(!getline(ss, betweenComma, ','))
                      break; // We're at the end of the line
                   std::stringstream ss2(betweenComma);
-                  T value;
+                  T value = T();
                   ss2 >> value;
                   iValues.push_back(value);
                }
-- 
2.43.0


From bf072ab93e6547a513279cef394dbc8cc20de0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 080/181] fix: the max option of a variable sets its maximum,
 not the min option

---
 src/client/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 4de36d6..7529106 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -91,7 +91,7 @@ void Variable::add(const Options& iOptions) {
       mMin = min;
    }
    float max;
-   if(iOptions.getValue("min", max)) {
+   if(iOptions.getValue("max", max)) {
       mMax = max;
    }
 }
-- 
2.43.0


From 327ee7e8997bbefd218ea37a067e8de3351bb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 081/181] fix: a default variable has missing limits and level
 instead of arbitrary ones

---
 src/client/Variable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 7529106..1745533 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -2,7 +2,10 @@
 #include <sstream>
 #include "Util.h"
 
-Variable::Variable() {
+Variable::Variable() :
+      mMin(Util::MV),
+      mMax(Util::MV),
+      mLevel(Util::MV) {
 }
 Variable::Variable(std::string iName, float iMin, float iMax, std::string iUnits, std::string iStandardName, int iLevel):
       mName(iName),
-- 
2.43.0


From 2f01af9d8b9008e9e74211da4e64b7db7a7bba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 082/181] fix: a complete -v/-vi pair with options is not
 overwritten by the next variable on the command line

---
 src/client/Setup.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 6f3edde..56e6f83 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -192,10 +192,13 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-v") {
             state = NEWVAR;
          }
-         else if(argv[index] == "-vi") {
+         else if(argv[index] == "-vi" && variableInputName == "") {
             index++;
             state = VARI;
          }
+         else if(argv[index] == "-vi") {
+            state = NEWVAR;
+         }
          else if(argv[index] == "-p") {
             errorMessage = "-p must be after a -d or -c";
             state = ERROR;
@@ -264,10 +267,13 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
-         else if(argv[index] == "-v") {
+         else if(argv[index] == "-v" && variableName == "") {
             state = VAR;
             index++;
          }
+         else if(argv[index] == "-v") {
+            state = NEWVAR;
+         }
          else if(argv[index] == "-p") {
             errorMessage = "-p must be after a -d or -c";
             state = ERROR;
-- 
2.43.0


From 041ee1c96a8dc16f5d9d8ebccabd5e6a50d7792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 083/181] fix: the options of a calibrator's parameter file are
 those after it on the command line only

---
 src/client/Setup.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 56e6f83..ae07be4 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -602,6 +602,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             }
             else if(argv[index] == "-p") {
                state = PARCAL;
+               index++;
             }
             else {
                state = CALOPT;
@@ -626,6 +627,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else if(argv[index] == "-p") {
             state = PARCAL;
+            index++;
          }
          else {
             // Process calibrator options
@@ -639,31 +641,32 @@ Setup::Setup(const std::vector<std::string>& argv) {
             state = ERROR;
             errorMessage = "No parameter file after '-p'";
          }
+         else if(argv[index][0] == '-') {
+            state = ERROR;
+            errorMessage = "No parameter file after '-p'";
+         }
          else {
             parameterFile = argv[index];
+            index++;
             if(argv.size() <= index) {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-v") {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-vi") {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-c") {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-d") {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-p") {
-               state = PARCAL;
-               index++;
+               // Two parameter files defined for one calibrator
+               errorMessage = "Two or more -p used for one calibrator";
+               state = ERROR;
             }
             else {
                state = PAROPTCAL;
@@ -687,7 +690,8 @@ Setup::Setup(const std::vector<std::string>& argv) {
             state = NEWCAL;
          }
          else if(argv[index] == "-p") {
-            state = PARCAL;
+            errorMessage = "Two or more -p used for one calibrator";
+            state = ERROR;
          }
          else {
             // Process calibrator options
@@ -724,6 +728,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             calibrator = "";
             cOpt.clear();
             parameterFile = "";
+            pOptions.clear();
             if(argv.size() <= index) {
                state = NEWVAR;
             }
-- 
2.43.0


From d4dcfd09e0fe7543ff893b790b6c58d371b2e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 084/181] fix: options and parameter files given to a
 downscaler stay with that downscaler

---
 src/client/Setup.cpp | 45 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index ae07be4..16264c4 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -106,7 +106,8 @@ Setup::Setup(const std::vector<std::string>& argv) {
    std::string parameterFile = "";
    std::vector<std::string> calibratorNames;
    std::vector<ParameterFile*> parameterFileCalibrators;
-   ParameterFile* parameterFileDownscaler = NULL;
+   std::string parameterFileDownscalerName = "";
+   Options pdOptions;
    std::string variableAlias = "";
    Options aOptions;
    while(true) {
@@ -305,7 +306,18 @@ Setup::Setup(const std::vector<std::string>& argv) {
 
             if(!alreadyExists) {
                VariableConfiguration varconf;
-               varconf.parameterFileDownscaler = parameterFileDownscaler;
+               varconf.parameterFileDownscaler = NULL;
+               if(parameterFileDownscalerName != "") {
+                  std::string schemeName;
+                  if(!pdOptions.getValue("type", schemeName)) {
+                     Util::error("Parameter file missing 'type': " + pdOptions.toString());
+                  }
+                  pdOptions.addOption("file", parameterFileDownscalerName);
+                  varconf.parameterFileDownscaler = ParameterFile::getScheme(schemeName, pdOptions);
+                  if(!varconf.parameterFileDownscaler->isReadable()) {
+                     Util::error("Could not open parameter file: " + pdOptions.toString());
+                  }
+               }
                // Find input variable
                bool foundVarInput = inputFiles[0]->hasVariable(useVariableInputName);
                if(foundVarInput)
@@ -377,7 +389,8 @@ Setup::Setup(const std::vector<std::string>& argv) {
             variableName = "";
             variableInputName = "";
             downscaler = defaultDownscaler();
-            parameterFileDownscaler = NULL;
+            parameterFileDownscalerName = "";
+            pdOptions.clear();
             dOptions.clear();
             cOptions.clear();
             calibratorNames.clear();
@@ -465,6 +478,10 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else {
             downscaler = argv[index];
             index++;
+            // A previous downscaler for this variable is replaced, including its options
+            dOptions.clear();
+            parameterFileDownscalerName = "";
+            pdOptions.clear();
             if(argv.size() <= index) {
                state = NEWVAR;
             }
@@ -485,6 +502,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             }
             else if(argv[index] == "-p") {
                state = PARDOWN;
+               index++;
             }
             else {
                state = DOWNOPT;
@@ -505,8 +523,14 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
+         else if(argv[index] == "-d") {
+            // Two downscalers defined for one variable
+            state = DOWN;
+            index++;
+         }
          else if(argv[index] == "-p") {
             state = PARDOWN;
+            index++;
          }
          else {
             // Process downscaler options
@@ -520,8 +544,12 @@ Setup::Setup(const std::vector<std::string>& argv) {
             errorMessage = "No parameter file after '-p'";
             state = ERROR;
          }
+         else if(argv[index][0] == '-') {
+            errorMessage = "No parameter file after '-p'";
+            state = ERROR;
+         }
          else {
-            parameterFile = argv[index];
+            parameterFileDownscalerName = argv[index];
             index++;
             if(argv.size() <= index) {
                state = NEWVAR;
@@ -566,13 +594,18 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
+         else if(argv[index] == "-d") {
+            // Two downscalers defined for one variable
+            state = DOWN;
+            index++;
+         }
          else if(argv[index] == "-p") {
-            errorMessage = "Two or more -p used for one calibrator";
+            errorMessage = "Two or more -p used for one downscaler";
             state = ERROR;
          }
          else {
             // Process parameter file options
-            pOptions.addOptions(argv[index]);
+            pdOptions.addOptions(argv[index]);
             index++;
          }
       }
-- 
2.43.0


From 7a78e239f8c44b8746fb26c98af0f7d86fbbac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 085/181] fix: several variable aliases on the command line are
 kept apart

---
 src/client/Setup.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 16264c4..f4d6629 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -435,6 +435,13 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVARALIAS;
          }
+         else if(argv[index] == "-va") {
+            state = NEWVARALIAS;
+         }
+         else if(argv[index] == "-d" || argv[index] == "-c" || argv[index] == "-p") {
+            errorMessage = argv[index] + " must be after a -v";
+            state = ERROR;
+         }
          else {
             aOptions.addOptions(argv[index]);
             index++;
@@ -449,16 +456,17 @@ Setup::Setup(const std::vector<std::string>& argv) {
                Util::error("Variable alias must have a name= option");
             }
             variableAliases[variableAlias] = Variable(aOptions);
-            variableAlias = "";
-            aOptions.clear();
          }
          else {
             std:: stringstream ss;
             ss << "Variable alias '" << variableAlias << "' already read. Using first instance.";
             Util::warning(ss.str());
          }
+         variableAlias = "";
+         aOptions.clear();
          if(argv.size() <= index) {
-            state = END;
+            errorMessage = "No variables defined";
+            state = ERROR;
          }
          else if(argv[index] == "-v"){
             state = VAR;
@@ -468,6 +476,10 @@ Setup::Setup(const std::vector<std::string>& argv) {
             state = VARI;
             index++;
          }
+         else if(argv[index] == "-va"){
+            state = VARALIAS;
+            index++;
+         }
       }
       else if(state == DOWN) {
          if(argv.size() <= index) {
-- 
2.43.0


From 14619dfde8ef0dab22470cdcbedbec9a1230a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 086/181] fix: a variable alias after the first variable is
 rejected instead of taken for an option

---
 src/client/Setup.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index f4d6629..536ef71 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -86,6 +86,15 @@ Setup::Setup(const std::vector<std::string>& argv) {
       inputFiles.push_back(inputFile);
    }
 
+   // Aliases must be defined before the variables, otherwise they would be taken for options
+   bool hasStartedVariables = false;
+   for(int i = index; i < argv.size(); i++) {
+      if(argv[i] == "-v" || argv[i] == "-vi")
+         hasStartedVariables = true;
+      else if(argv[i] == "-va" && hasStartedVariables)
+         Util::error("Invalid command line arguments: -va must be before -v and -vi.");
+   }
+
    // Implement a finite state machine
    enum State {START = 0, VAR = 1, VAROPT = 2, NEWVAR = 3, VARI = 4, VARIOPT = 5, VARALIAS = 6, VARALIASOPT = 7, NEWVARALIAS = 8, DOWN = 10, DOWNOPT = 15, CAL = 20, NEWCAL = 22, CALOPT = 25, PARDOWN = 30, PAROPTDOWN = 35, PARCAL = 40, PAROPTCAL = 45, END = 90, ERROR = 100};
    State state = START;
-- 
2.43.0


From 491a263177515c34d2e6f361e9efd42f53b85b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 087/181] fix: a flag is not taken for the name of a missing
 downscaler or calibrator

---
 src/client/Setup.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 536ef71..98191f6 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -496,6 +496,10 @@ Setup::Setup(const std::vector<std::string>& argv) {
             errorMessage = "No downscaler after '-d'";
             state = ERROR;
          }
+         else if(argv[index][0] == '-') {
+            errorMessage = "No downscaler after '-d'";
+            state = ERROR;
+         }
          else {
             downscaler = argv[index];
             index++;
@@ -636,6 +640,10 @@ Setup::Setup(const std::vector<std::string>& argv) {
             state = ERROR;
             errorMessage = "No calibrator after '-c'";
          }
+         else if(argv[index][0] == '-') {
+            state = ERROR;
+            errorMessage = "No calibrator after '-c'";
+         }
          else {
             calibrator = argv[index];
             index++;
-- 
2.43.0


From f83ec28e0c22574eb0b037ac184ff9001937987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 088/181] fix: parameter locations are not duplicated when the
 tree is recomputed

---
 src/client/ParameterFile/ParameterFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index 1d56324..5075e1e 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -19,6 +19,7 @@ ParameterFile::ParameterFile(const Options& iOptions, bool iIsNew) :
 }
 
 void ParameterFile::recomputeTree() const {
+   mLocations.clear();
    if(isLocationDependent()) {
       vec2 lats, lons;
       LocationParameters::const_iterator it = mParameters.begin();
-- 
2.43.0


From 86bf325e7ff648e105aa0f6aa6b4d11237ab82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 089/181] fix: parameter text files are written with the header
 on one line and full precision

---
 src/client/ParameterFile/Text.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 4c38636..a78cf7a 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -181,12 +181,15 @@ void ParameterFileText::write(const std::string& iFilename) const {
    std::map<Location, std::vector<Parameters> >::const_iterator it;
    // Loop over times
    if(isLocationDependent())
-      ofs << "time lat lon elev" << std::endl;
+      ofs << "time lat lon elev";
    else
-      ofs << "time" << std::endl;
+      ofs << "time";
    for(int i = 0; i < getNumParameters(); i++) {
       ofs << " param" << i;
    }
+   ofs << std::endl;
+   // Enough digits to read back the same values
+   ofs.precision(9);
    for(it = mParameters.begin(); it != mParameters.end(); it++) {
       // Loop over locations
       const Location& location = it->first;
-- 
2.43.0


From 968f944ca1a93aebc6e5c101b0b8d3ed63b7f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 090/181] fix: locations with a missing elevation are kept when
 reading parameter text files

---
 src/client/ParameterFile/Text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index a78cf7a..19c8945 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -102,7 +102,7 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
             }
             times.insert(time);
             Location location(Util::MV, Util::MV, Util::MV);
-            if(Util::isValid(lat) && Util::isValid(lon) && Util::isValid(elev)) {
+            if(Util::isValid(lat) && Util::isValid(lon)) {
                location = Location(lat, lon, elev);
             }
 
-- 
2.43.0


From 5a68ec5fb91583fc6d51c58c6d71c0bf5383c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 091/181] fix: the dimName option is used when writing
 parameters to netcdf

---
 src/client/ParameterFile/Netcdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index ac32be4..c6a37a1 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -314,7 +314,7 @@ void ParameterFileNetcdf::write() const {
    int dTime = createDim(mFile, "time", nTime);
    int dLon  = createDim(mFile, "lon", nLon);
    int dLat  = createDim(mFile, "lat", nLat);
-   int dCoeff = createDim(mFile, "coeff", nCoeff);
+   int dCoeff = createDim(mFile, mDimName, nCoeff);
    int dims[4]  = {dTime, dLat, dLon, dCoeff};
    int var = Util::MV;
    int status = nc_def_var(mFile, mVarName.c_str(), NC_FLOAT, 4, dims, &var);
-- 
2.43.0


From 69820ccc3ecf4ee5a1c5ae69d389a964a97783a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 092/181] fix: the distance between coinciding points is not
 NaN because of rounding

---
 src/client/Util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 5d62b79..3c5ca1f 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -132,6 +132,8 @@ float Util::getDistance(float lat1, float lon1, float lat2, float lon2, bool app
       double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                    + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                    + sin(lat1r)*sin(lat2r);
+      // Rounding can bring the ratio outside the domain of acos when the points coincide
+      ratio = std::max(-1.0, std::min(1.0, ratio));
       double dist = acos(ratio)*radiusEarth;
       return (float) dist;
    }
-- 
2.43.0


From 90b07ef655ffe2b6f090ead9cfeac63f967c95ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 093/181] fix: the nearest neighbour is found across the
 dateline and near the poles

---
 src/client/KDTree.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/client/KDTree.cpp b/src/client/KDTree.cpp
index 36fd406..cf27aac 100644
--- a/src/client/KDTree.cpp
+++ b/src/client/KDTree.cpp
@@ -1,6 +1,29 @@
 #include "KDTree.h"
 
 #include <limits>
+#include <algorithm>
+#include <math.h>
+
+namespace {
+   // Longitudes in the tree are on the interval [-180, 180)
+   float wrapLon(float lon) {
+      lon = fmod(lon, 360);
+      if(lon < -180)
+         lon += 360;
+      else if(lon >= 180)
+         lon -= 360;
+      return lon;
+   }
+
+   // Shortest distance to the meridian mlon
+   float getDistanceToMeridian(float lat, float lon, float mlon) {
+      double dlon = fabs(wrapLon(lon - mlon)) * M_PI / 180;
+      double latr = lat * M_PI / 180;
+      if(dlon >= M_PI / 2)
+         return (M_PI / 2 - fabs(latr)) * Util::radiusEarth; // The pole is nearest
+      return asin(std::min(1.0, cos(latr) * sin(dlon))) * Util::radiusEarth;
+   }
+}
 
 KDTree::KDTree() : mRoot(NULL) {
 }
@@ -47,7 +70,7 @@ void KDTree::build(const vec2& iLats, const vec2& iLons) {
    for(size_t i = 0; i < iLats.size(); ++i) {
      for(size_t j = 0; j < iLats[0].size(); ++j) {
         if(Util::isValid(iLons[i][j]) && Util::isValid(iLats[i][j])) {
-           *(currLon++) = Indexed(iLons[i][j], iLats[i][j], i, j);
+           *(currLon++) = Indexed(wrapLon(iLons[i][j]), iLats[i][j], i, j);
            ++to;
         }
      }
@@ -147,7 +170,9 @@ const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float l
 
       bool cross;
       if(currentLeaf->xsection) {
-         cross = Util::getDistance(lat, lon, lat, currentLeaf->lon) < currBest;
+         // The other side can be reached through the splitting meridian or the dateline
+         float boundary = std::min(getDistanceToMeridian(lat, lon, currentLeaf->lon), getDistanceToMeridian(lat, lon, 180));
+         cross = boundary <= currBest;
       } else {
          cross = Util::getDistance(lat, lon, currentLeaf->lat, lon) < currBest;
       }
@@ -218,7 +243,7 @@ void KDTree::getNearestNeighbour(const File& iTo, vec2Int& iI, vec2Int& iJ) cons
       for(size_t j = 0; j < nLon; ++j) {
          if(Util::isValid(olats[i][j]) && Util::isValid(olons[i][j])) {
             // Find the nearest neighbour from input grid (ii, jj)
-            nearest = nearestNeighbour(mRoot, olons[i][j], olats[i][j], std::numeric_limits<float>::infinity()).first;
+            nearest = nearestNeighbour(mRoot, wrapLon(olons[i][j]), olats[i][j], std::numeric_limits<float>::infinity()).first;
             iI[i][j] = nearest->ipos;
             iJ[i][j] = nearest->jpos;
          }
@@ -227,7 +252,7 @@ void KDTree::getNearestNeighbour(const File& iTo, vec2Int& iI, vec2Int& iJ) cons
 }
 
 void KDTree::getNearestNeighbour(float iLat, float iLon, int& iI, int& iJ) const {
-   const TreeNode * nearest = nearestNeighbour(mRoot, iLon, iLat, std::numeric_limits<float>::infinity()).first;
+   const TreeNode * nearest = nearestNeighbour(mRoot, wrapLon(iLon), iLat, std::numeric_limits<float>::infinity()).first;
    iI = nearest->ipos;
    iJ = nearest->jpos;
    return;
-- 
2.43.0


From d2fdd129efbe5b086e4dc1eb7f21dc348793674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 094/181] fix: looking up parameters in an empty file gives no
 parameters

---
 src/client/ParameterFile/ParameterFile.cpp | 14 +++++++-------
 src/client/ParameterFile/Text.cpp          |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index 5075e1e..3f3233d 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -76,12 +76,10 @@ Parameters ParameterFile::getParameters(int iTime) const {
    if(isLocationDependent()) {
       Util::error("Cannot retrieve location-independent parameters for a location-dependent file");
    }
-   // Find the right location to use
-   LocationParameters::const_iterator it;
-   if(mParameters.size() == 1) {
-      // One set of parameters for all locations
-       it = mParameters.begin();
-   }
+   if(mParameters.size() == 0)
+      return Parameters();
+   // One set of parameters for all locations
+   LocationParameters::const_iterator it = mParameters.begin();
 
    // Find the right time to use
    const std::vector<Parameters>& timeParameters = it->second;
@@ -138,6 +136,8 @@ Parameters ParameterFile::getParameters(int iTime, const Location& iLocation, bo
 }
 
 bool ParameterFile::getNearestLocation(int iTime, const Location& iLocation, Location& iNearestLocation) const {
+   if(mParameters.size() == 0)
+      return false;
    if(mParameters.size() == 1) {
       // One set of parameters for all locations
       LocationParameters::const_iterator it = mParameters.begin();
@@ -223,7 +223,7 @@ std::vector<int> ParameterFile::getTimes() const {
 
 bool ParameterFile::isLocationDependent() const {
    bool locationDependent = mParameters.size() > 1;
-   if(!locationDependent) {
+   if(mParameters.size() == 1) {
       Location location = mParameters.begin()->first;
       if(Util::isValid(location.lat()) && Util::isValid(location.lon()))
          locationDependent = true;
diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 19c8945..bbb6ff0 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -214,7 +214,7 @@ void ParameterFileText::write(const std::string& iFilename) const {
 
 bool ParameterFileText::isLocationDependent() const {
    bool locationDependent = mParameters.size() > 1;
-   if(!locationDependent) {
+   if(mParameters.size() == 1) {
       Location location = mParameters.begin()->first;
       if(Util::isValid(location.lat()) && Util::isValid(location.lon()))
          locationDependent = true;
-- 
2.43.0


From a07a1dd9a5ff018ef586f0d113cf14086ee663f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 095/181] fix: getting an unavailable field does not replace
 the fields of other times

---
 src/client/File/File.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/client/File/File.cpp b/src/client/File/File.cpp
index 38770a4..b0f503d 100644
--- a/src/client/File/File.cpp
+++ b/src/client/File/File.cpp
@@ -110,17 +110,14 @@ FieldPtr File::getField(const Variable& iVariable, int iTime, bool iSkipRead) co
          addField(getFieldCore(iVariable, iTime), iVariable, iTime);
       }
       else if (iSkipRead) {
-         for(int t = 0; t < getNumTime(); t++) {
-            FieldPtr field = getEmptyField();
-            addField(field, iVariable, t);
-         }
+         addField(getEmptyField(), iVariable, iTime);
       }
       else {
          std::string variableType = iVariable.name();
          Util::warning(variableType + " not available in '" + getFilename() + "'");
          for(int t = 0; t < getNumTime(); t++) {
-            FieldPtr field = getEmptyField();
-            addField(field, iVariable, t);
+            if(mFields[iVariable][t] == NULL)
+               addField(getEmptyField(), iVariable, t);
          }
       }
    }
-- 
2.43.0


From c48efeea9ccce038907f5af32b7f9cdcd92726de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 096/181] fix: missing values are recognized and written for
 integer variables and for any missing value indicator

---
 src/client/File/Netcdf.cpp | 45 ++++++++++++++++++++++++--------------
 src/client/File/Netcdf.h   |  2 +-
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index f1f6af0..266f5a0 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -2,6 +2,7 @@
 #include <math.h>
 #include <netcdf.h>
 #include <assert.h>
+#include <cmath>
 #include <stdlib.h>
 #include "../Util.h"
 
@@ -319,7 +320,7 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
                indices[xPos] = x;
             int i = getIndex(countVector, indices);
             float value = values[i];
-            if(Util::isValid(MV) && value == MV) {
+            if(value == MV || std::isnan(value)) {
                // Field has missing value indicator and the value is missing
                // Save values using our own internal missing value indicator
                value = Util::MV;
@@ -438,9 +439,9 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       std::string variableName = variable.name();
       assert(hasVariableCore(variable));
       int var = getVar(variableName);
-      float MV = getMissingValue(var); // The output file's missing value indicator
+      double MV = getMissingValue(var); // The output file's missing value indicator
       size_t size = 1*1*mNEns*getNumY()*getNumX();
-      float* values = new float[size];
+      double* values = new double[size];
 
       std::vector<int> dims = getDims(var);
       size_t count[dims.size()];
@@ -501,8 +502,8 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                      if(Util::isValid(xPos))
                         indices[xPos] = x;
                      int i = getIndex(countVector, indices);
-                     float value = (*field)(y, x, e);
-                     if(Util::isValid(MV) && !Util::isValid(value)) {
+                     double value = (*field)(y, x, e);
+                     if(!Util::isValid((*field)(y, x, e))) {
                         // Field has missing value indicator and the value is missing
                         // Save values using the file's missing indicator value
                         value = MV;
@@ -514,7 +515,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                   }
                }
             }
-            int status = nc_put_vara_float(mFile, var, start, count, values);
+            int status = nc_put_vara_double(mFile, var, start, count, values);
             handleNetcdfError(status, "could not write variable " + variableName);
          }
       }
@@ -791,12 +792,12 @@ void FileNetcdf::writeAltitude() const {
       }
       start[i] = 0;
    }
-   float MV = getMissingValue(vElev);
-   float* values = new float[size];
+   double MV = getMissingValue(vElev);
+   double* values = new double[size];
    for(int i = 0; i < getNumY(); i++) {
       for(int j = 0; j < getNumX(); j++) {
-         float elev = elevs[i][j];
-         if(Util::isValid(MV) && !Util::isValid(elev))
+         double elev = elevs[i][j];
+         if(!Util::isValid(elevs[i][j]))
             elev = MV;
          // Latitude dimension is ordered first
          if(indexY < indexX) {
@@ -808,7 +809,7 @@ void FileNetcdf::writeAltitude() const {
          }
       }
    }
-   int status = nc_put_vara_float(mFile, vElev, start, count, values);
+   int status = nc_put_vara_double(mFile, vElev, start, count, values);
    handleNetcdfError(status, "could not write altitude");
    delete[] values;
 }
@@ -918,11 +919,23 @@ std::vector<int> FileNetcdf::getDims(int iVar) const {
    }
    return dims;
 }
-float FileNetcdf::getMissingValue(int iVar) const {
-   float fillValue;
-   int status = nc_get_att_float(mFile, iVar, "_FillValue", &fillValue);
-   if(status != NC_NOERR)
-      fillValue  = NC_FILL_FLOAT;
+double FileNetcdf::getMissingValue(int iVar) const {
+   double fillValue;
+   int status = nc_get_att_double(mFile, iVar, "_FillValue", &fillValue);
+   if(status != NC_NOERR) {
+      // Use the default fill value of the variable's type
+      nc_type type = NC_FLOAT;
+      status = nc_inq_vartype(mFile, iVar, &type);
+      handleNetcdfError(status, "could not get type of variable");
+      if(type == NC_SHORT)
+         fillValue = NC_FILL_SHORT;
+      else if(type == NC_INT)
+         fillValue = NC_FILL_INT;
+      else if(type == NC_DOUBLE)
+         fillValue = NC_FILL_DOUBLE;
+      else
+         fillValue = NC_FILL_FLOAT;
+   }
    return fillValue;
 }
 void FileNetcdf::setMissingValue(int iVar, float iValue) const {
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index dc37d73..76c8320 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -89,7 +89,7 @@ class FileNetcdf : public File {
       void startDefineMode() const;
       void startDataMode() const;
       mutable bool mInDataMode;
-      float getMissingValue(int iVar) const;
+      double getMissingValue(int iVar) const;
       void  setMissingValue(int iVar, float iValue) const;
       //! Convert linear index 'i' to vector 'iInidices'. 'iCount' specifies the size of the data
       //! Using row-major ordering (last index varies fastest)
-- 
2.43.0


From 090011ab9bb38d75b1c712a060c44684150c4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 097/181] fix: values are rounded, not truncated, when written
 to integer variables

---
 src/client/File/Netcdf.cpp | 10 ++++++++++
 src/client/File/Netcdf.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 266f5a0..86734f9 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -442,6 +442,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       double MV = getMissingValue(var); // The output file's missing value indicator
       size_t size = 1*1*mNEns*getNumY()*getNumX();
       double* values = new double[size];
+      bool integer = isInteger(var);
 
       std::vector<int> dims = getDims(var);
       size_t count[dims.size()];
@@ -510,6 +511,8 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                      }
                      else {
                         value = (value - offset)/scale;
+                        if(integer)
+                           value = round(value);
                      }
                      values[i] = value;
                   }
@@ -951,6 +954,13 @@ void FileNetcdf::setMissingValue(int iVar, float iValue) const {
    }
 }
 
+bool FileNetcdf::isInteger(int iVar) const {
+   nc_type type = NC_FLOAT;
+   int status = nc_inq_vartype(mFile, iVar, &type);
+   handleNetcdfError(status, "could not get type of variable");
+   return type != NC_FLOAT && type != NC_DOUBLE;
+}
+
 float FileNetcdf::getScale(int iVar) const {
    float scale;
    int status = nc_get_att_float(mFile, iVar, "scale_factor", &scale);
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index 76c8320..a1f6f40 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -46,6 +46,8 @@ class FileNetcdf : public File {
       std::string name() const {return "netcdf";};
 
    protected:
+      //! Are the values of this variable stored as integers?
+      bool isInteger(int iVar) const;
       float getScale(int iVar) const;
       float getOffset(int iVar) const;
       void writeCore(std::vector<Variable> iVariables, std::string iMessage="");
-- 
2.43.0


From 1f76590ecf6aa2e844cfc4a09ae407836e29f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 098/181] fix: scaling is applied to coordinate, altitude and
 land area fraction variables

---
 src/client/File/Netcdf.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 86734f9..f474a7d 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -796,12 +796,20 @@ void FileNetcdf::writeAltitude() const {
       start[i] = 0;
    }
    double MV = getMissingValue(vElev);
+   float scale = getScale(vElev);
+   float offset = getOffset(vElev);
+   bool integer = isInteger(vElev);
    double* values = new double[size];
    for(int i = 0; i < getNumY(); i++) {
       for(int j = 0; j < getNumX(); j++) {
          double elev = elevs[i][j];
          if(!Util::isValid(elevs[i][j]))
             elev = MV;
+         else {
+            elev = (elev - offset) / scale;
+            if(integer)
+               elev = round(elev);
+         }
          // Latitude dimension is ordered first
          if(indexY < indexX) {
             values[i*getNumX() + j] = elev;
@@ -1223,6 +1231,8 @@ bool FileNetcdf::hasVariableCore(const Variable& iVariable) const {
 }
 vec2 FileNetcdf::getLatLonVariable(int iVar) const {
    float MV = getMissingValue(iVar);
+   float scale = getScale(iVar);
+   float offset = getOffset(iVar);
    std::vector<int> dims = getDims(iVar);
    // Initialize grid
    vec2 grid;
@@ -1261,6 +1271,10 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
                value = values[j];
             else
                value = values[i];
+            if(value == MV || std::isnan(value))
+               value = Util::MV;
+            else
+               value = scale * value + offset;
             grid[i][j] = value;
          }
       }
@@ -1307,8 +1321,10 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
                index = j*numY + i;
             }
             float value = values[index];
-            if(values[index] == MV)
+            if(value == MV || std::isnan(value))
                value = Util::MV;
+            else
+               value = scale * value + offset;
             grid[i][j] = value;
             assert(index < numX*numY);
          }
-- 
2.43.0


From a4ce6c3765192b4dfc47888162115b578b398923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 099/181] fix: a variable with a level is written to that level

---
 src/client/File/Netcdf.cpp | 41 ++++++++++++++++++++------------------
 src/client/File/Netcdf.h   |  2 ++
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index f474a7d..1785964 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -260,23 +260,8 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
          xPos = d;
       }
       else {
-         int level = iVariable.level();
          // Non-recognized dimension
-         if(Util::isValid(level)) {
-            int size = getDimSize(dim);
-            if(size > 1) {
-               if(level >= size) {
-                  std::stringstream ss;
-                  char name[1000];
-                  int status = nc_inq_varname(mFile, dim, name);
-                  handleNetcdfError(status, "could not get dimension name of level dimension'");
-                  ss << "Could not get level " << level
-                     << " from dimension '" << name << "' since it only has a size of " << size;
-                  Util::error(ss.str());
-               }
-               start[d] = level;
-            }
-         }
+         start[d] = getLevel(iVariable, dim);
       }
    }
    if(!Util::isValid(ensPos) && Util::isValid(mEnsDim)) {
@@ -291,7 +276,8 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
       size *= count[d];
    }
    float* values = new float[size];
-   nc_get_vara_float(mFile, var, start, count, values);
+   int status = nc_get_vara_float(mFile, var, start, count, values);
+   handleNetcdfError(status, "could not read variable " + variableName);
 
    float MV = getMissingValue(var);
    float offset = getOffset(var);
@@ -364,6 +350,20 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
    return field;
 }
 
+int FileNetcdf::getLevel(const Variable& iVariable, int iDim) const {
+   int level = iVariable.level();
+   int size = getDimSize(iDim);
+   if(!Util::isValid(level) || size <= 1)
+      return 0;
+   if(level < 0 || level >= size) {
+      std::stringstream ss;
+      ss << "Could not get level " << level
+         << " from dimension '" << getDimName(iDim) << "' since it only has a size of " << size;
+      Util::error(ss.str());
+   }
+   return level;
+}
+
 void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
    startDefineMode();
 
@@ -472,8 +472,11 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
 
       for(int t = 0; t < getNumTime(); t++) {
          size_t start[dims.size()];
-         for(int d = 0; d < dims.size(); d++)
-            start[d] = 0;
+         for(int d = 0; d < dims.size(); d++) {
+            // Write to the same level that is read
+            bool isLevel = dims[d] != mTimeDim && dims[d] != mEnsDim && dims[d] != mYDim && dims[d] != mXDim;
+            start[d] = isLevel ? getLevel(variable, dims[d]) : 0;
+         }
          if(Util::isValid(timePos))
             start[timePos] = t;
 
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index a1f6f40..b68d42c 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -46,6 +46,8 @@ class FileNetcdf : public File {
       std::string name() const {return "netcdf";};
 
    protected:
+      //! Which index should be used for a dimension other than time, ensemble, y, or x?
+      int getLevel(const Variable& iVariable, int iDim) const;
       //! Are the values of this variable stored as integers?
       bool isInteger(int iVar) const;
       float getScale(int iVar) const;
-- 
2.43.0


From cdd416904096b23fe63d964a6c8aa80d7bf1e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 100/181] fix: a scalar time is used as the reference time when
 there is none

---
 src/client/File/Netcdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 1785964..7d8f526 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -186,7 +186,7 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
          std::vector<double> times(1, time);
          setTimes(times);
       }
-      if(size > 0 && !Util::isValid(getReferenceTime())) {
+      if(getTimes().size() > 0 && !Util::isValid(getReferenceTime())) {
          std::stringstream ss;
          ss << "File does not contain reference time, using the first timestep as the reference time";
          Util::warning(ss.str());
-- 
2.43.0


From 8c1bdb27bc2cf27d56b4933224fc454f8c777103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 101/181] fix: times are written to the time variable of the
 file, not always to the one called time

---
 src/client/File/Netcdf.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 7d8f526..c885e1e 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1143,10 +1143,9 @@ std::string FileNetcdf::getGlobalAttribute(std::string iName) {
 }
 
 void FileNetcdf::defineTimes() {
-   if(!hasVar("time")) {
+   if(!Util::isValid(mTimeVar)) {
       if(Util::isValid(mTimeDim)) {
-         int id;
-         int status = nc_def_var(mFile, "time", NC_DOUBLE, 1, &mTimeDim, &id);
+         int status = nc_def_var(mFile, "time", NC_DOUBLE, 1, &mTimeDim, &mTimeVar);
          handleNetcdfError(status, "creating time variable");
       }
       else {
@@ -1156,7 +1155,7 @@ void FileNetcdf::defineTimes() {
          handleNetcdfError(status, "creating time variable");
       }
    }
-   int vTime = getVar("time");
+   int vTime = mTimeVar;
    setAttribute(vTime, "long_name", "time");
    setAttribute(vTime, "standard_name", "time");
    setAttribute(vTime, "units", "seconds since 1970-01-01 00:00:00 +00:00");
@@ -1182,7 +1181,7 @@ void FileNetcdf::writeTimes() {
       if(!Util::isValid(times[i]))
          times[i] = NC_FILL_FLOAT;
    }
-   int vTime = getVar("time");
+   int vTime = mTimeVar;
    double timesArr[getNumTime()];
    for(int t = 0; t < getNumTime(); t++) {
       timesArr[t] = times[t];
-- 
2.43.0


From 1d594fe04766fa5a50f2142ac4189ab9f87de4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 102/181] fix: rows in point files are looked up by time step,
 not by the value of the time column

---
 src/client/File/Point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index d547d69..355c32e 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -97,6 +97,7 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
    FieldPtr field = getEmptyField();
 
    int row = 0;
+   int timeIndex = 0; // Index of the row among the rows with data
    while(ifs.good()) {
       char line[10000];
       ifs.getline(line, 10000, '\n');
@@ -105,7 +106,7 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
          double time;
          ss >> time;
 
-         if(time == iTime) {
+         if(timeIndex == iTime) {
             double value;
             int e = 0;
             while(ss >> value) {
@@ -123,6 +124,7 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
                Util::error(ss.str());
             }
          }
+         timeIndex++;
       }
       row++;
    }
-- 
2.43.0


From a9473c737078edb684a2d4a393a7976961ed24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 103/181] fix: a new point file needs the time option, and has
 one member by default

---
 src/client/File/Point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 355c32e..1a61c63 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -80,11 +80,11 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
    }
 
    // Check that we got time and ensemble dimension
-   if(!Util::isValid(numTimes)) {
+   if(times.size() == 0) {
       Util::error("Missing 'time' option for empty file '" + iFilename + "'");
    }
    if(!Util::isValid(mNEns)) {
-      Util::error("Missing 'ens' option for empty file '" + iFilename + "'");
+      mNEns = 1;
    }
    setTimes(times);
 }
-- 
2.43.0


From f5de5b3f01b8435ca39577c01eb950f6d0e57370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 104/181] fix: point files are written with full precision

---
 src/client/File/Point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 1a61c63..b13b74a 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -144,9 +144,9 @@ void FilePoint::writeCore(std::vector<Variable> iVariables, std::string iMessage
       FieldPtr field = getField(iVariables[0], i);
       if(field != NULL) {
          ofs << (long) getTimes()[i];
-         ofs.precision(2);
+         ofs.precision(9); // Enough to recover any float
          for(int e = 0; e < getNumEns(); e++) {
-            ofs << std::fixed << " " << (*field)(0,0,e);
+            ofs << " " << (*field)(0,0,e);
          }
          ofs << std::endl;
       }
-- 
2.43.0


From 59306f809ee1e4f29900057e7d4cad6fa3b4a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 105/181] fix: text files are written with all locations in the
 format in which they are read

---
 src/client/File/Text.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index eb9790d..037aa20 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -134,16 +134,20 @@ void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage)
       Util::warning("No variables to write");
       return;
    }
+   vec2 lats = getLats();
+   vec2 lons = getLons();
+   vec2 elevs = getElevs();
+   ofs.precision(9); // Enough to recover any float
    for(int i = 0; i < getNumTime(); i++) {
-      ofs.precision(0);
       FieldPtr field = getField(iVariables[0], i);
       if(field != NULL) {
-         ofs << (long) getTimes()[i];
-         ofs.precision(2);
-         for(int e = 0; e < getNumEns(); e++) {
-            ofs << std::fixed << " " << (*field)(0,0,e);
+         for(int y = 0; y < getNumY(); y++) {
+            ofs << (long) getTimes()[i] << " " << lats[y][0] << " " << lons[y][0] << " " << elevs[y][0];
+            for(int e = 0; e < getNumEns(); e++) {
+               ofs << " " << (*field)(y,0,e);
+            }
+            ofs << std::endl;
          }
-         ofs << std::endl;
       }
    }
    ofs.close();
-- 
2.43.0


From e6c13d347f1f4fa3c5458050dec183734ec4dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 106/181] fix: a number of members that does not match the
 ensemble dimension is an error

---
 src/client/File/Netcdf.cpp | 10 ++++++++++
 src/client/File/Netcdf.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index c885e1e..33a8992 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -230,6 +230,7 @@ FileNetcdf::~FileNetcdf() {
 
 FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
    startDataMode();
+   checkEns();
    std::string variableName = iVariable.name();
    int var = getVar(variableName);
    std::vector<int> dims = getDims(var);
@@ -1165,6 +1166,15 @@ void FileNetcdf::defineEns() {
       int status = nc_def_dim(mFile, mEnsDimName.c_str(), mNEns, &mEnsDim);
       handleNetcdfError(status, "creating '" + mEnsDimName + "' dimension");
    }
+   checkEns();
+}
+void FileNetcdf::checkEns() const {
+   if(Util::isValid(mEnsDim) && getDimSize(mEnsDim) != mNEns) {
+      std::stringstream ss;
+      ss << "File '" << getFilename() << "' has an ensemble dimension of size " << getDimSize(mEnsDim)
+         << ", which is incompatible with " << mNEns << " members";
+      Util::error(ss.str());
+   }
 }
 void FileNetcdf::writeTimes() {
    std::vector<double> times = getTimes();
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index b68d42c..0a96682 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -48,6 +48,8 @@ class FileNetcdf : public File {
    protected:
       //! Which index should be used for a dimension other than time, ensemble, y, or x?
       int getLevel(const Variable& iVariable, int iDim) const;
+      //! Check that the number of members matches the ensemble dimension, if any
+      void checkEns() const;
       //! Are the values of this variable stored as integers?
       bool isInteger(int iVar) const;
       float getScale(int iVar) const;
-- 
2.43.0


From 928dd36ef26694e96b26bc56af64d3e704a14355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 107/181] fix: a text file that cannot be opened is an error

---
 src/client/File/Text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index 037aa20..039263f 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -11,7 +11,7 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
 
    std::ifstream ifs(getFilename().c_str(), std::ifstream::in);
    if(!ifs.good()) {
-      return;
+      Util::error("Could not open file '" + iFilename + "'");
    }
    std::set<int> timesSet;
    std::set<Location> locationsSet;
-- 
2.43.0


From 07e3deba2bedf7532e5be161a6f90322837dd09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 108/181] fix: undefined coordinates stay undefined when
 scaling is applied

---
 src/client/File/Netcdf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 33a8992..62b6c74 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1283,7 +1283,7 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
                value = values[j];
             else
                value = values[i];
-            if(value == MV || std::isnan(value))
+            if(value == MV)
                value = Util::MV;
             else
                value = scale * value + offset;
@@ -1333,7 +1333,7 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
                index = j*numY + i;
             }
             float value = values[index];
-            if(value == MV || std::isnan(value))
+            if(value == MV)
                value = Util::MV;
             else
                value = scale * value + offset;
-- 
2.43.0


From 4628e8750043abeca9dd9f77556e21bf4d56e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 109/181] fix: the elevation gradient is used also when the
 sums of elevations happen to be equal

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index f708cee..4e7af94 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -437,7 +437,7 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
       // Use model gradient if:
       // 1) sufficient elevation difference in neighbourhood
       // 2) regression parameters are stable enough
-      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff && meanXX != meanX*meanX) {
+      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff) {
          // Estimate lapse rate
          meanXY /= counter;
          meanX  /= counter;
-- 
2.43.0


From 9c63a28108ebd0d0bb6bbcc21ffe2bb280348c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 110/181] fix: the range of the neighbourhood includes the
 first value when values are limited to it

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 4e7af94..9da6fd8 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -197,7 +197,7 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
                            if(Util::isValid(curr)) {
                               if(!Util::isValid(min) || curr < min)
                                  min = curr;
-                              else if(!Util::isValid(max) || curr > max)
+                              if(!Util::isValid(max) || curr > max)
                                  max = curr;
                            }
                         }
-- 
2.43.0


From 5f0f3b225e4fc480ee271f669368baad3dcf8a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 111/181] fix: each search radius of the land gradient uses its
 own range of land area fractions

---
 src/client/Downscaler/Gradient.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 9da6fd8..cec051e 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -286,17 +286,17 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
       value = minT + gradient * dLaf
    */
    // Compute the average temperature and LAF in a small radius
-   float minLaf = Util::MV;
-   float maxLaf = Util::MV;
-   float minElev = Util::MV;
-   float maxElev = Util::MV;
-   float minT = Util::MV;
-   float maxT = Util::MV;
    // std::vector<float> values(mSearchRadii.size(), Util::MV);
    float value = 0;
    int counter = 0;
    float totalWeight = 0;
    for(int r = 0; r < mLafSearchRadii.size(); r++) {
+      float minLaf = Util::MV;
+      float maxLaf = Util::MV;
+      float minElev = Util::MV;
+      float maxElev = Util::MV;
+      float minT = Util::MV;
+      float maxT = Util::MV;
       int numSeaPoints = 0;
       int numPoints = 0;
       int searchRadius = mLafSearchRadii[r];
-- 
2.43.0


From c784c727a46d6f3256e43b82876bf334daac6bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 112/181] fix: points with a missing land area fraction are not
 counted as sea

---
 src/client/Downscaler/Gradient.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index cec051e..0dc869c 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -305,11 +305,9 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
             float currLaf  = iLafs[ii][jj];
             float currElev = iElevs[ii][jj];
             float currValue = iField(ii,jj,e);
-            if(Util::isValid(currValue)) {
+            if(Util::isValid(currValue) && Util::isValid(currLaf)) {
                numSeaPoints += currLaf < 0.5;
                numPoints++;
-            }
-            if(Util::isValid(currValue) && Util::isValid(currLaf)) {
                if(!Util::isValid(minLaf) || currLaf < minLaf) {
                   minLaf = currLaf;
                   minElev = currElev;
-- 
2.43.0


From dea06b5a02ac983d788d4880ffc3999e8c4c9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 113/181] fix: minLafGradient and maxLafGradient are applied

---
 src/client/Downscaler/Gradient.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 0dc869c..e00f887 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -16,6 +16,8 @@ DownscalerGradient::DownscalerGradient(const Variable& iInputVariable, const Var
       mSaveGradient(""),
       mMinLafForElevGradient(0),
       mMinLafDiff(0.1),
+      mMinLafGradient(Util::MV),
+      mMaxLafGradient(Util::MV),
       mLafRadius(0),
       mDownscalerName("nearestNeighbour"),
       mMinNumPoints(2),
@@ -374,6 +376,11 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
    }
    else {
       gradient = value / totalWeight;
+      // Check against minimum and maximum gradients
+      if(Util::isValid(mMinLafGradient) && gradient < mMinLafGradient)
+         gradient = mMinLafGradient;
+      if(Util::isValid(mMaxLafGradient) && gradient > mMaxLafGradient)
+         gradient = mMaxLafGradient;
    }
    return gradient;
 }
-- 
2.43.0


From cb3512041999306c2248f7782c3387dc4add3212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 114/181] fix: unknown downscalers and inconsistent weights are
 rejected by the gradient downscaler

---
 src/client/Downscaler/Gradient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index e00f887..3d67955 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -58,7 +58,10 @@ DownscalerGradient::DownscalerGradient(const Variable& iInputVariable, const Var
          mLafWeights.push_back(1.0/mLafSearchRadii.size());
       }
    }
-   assert(mLafSearchRadii.size() == mLafWeights.size());
+   if(mLafSearchRadii.size() != mLafWeights.size())
+      Util::error("DownscalerGradient: 'lafSearchRadii' and 'lafWeights' must have the same number of values");
+   if(mDownscalerName != "nearestNeighbour" && mDownscalerName != "bilinear")
+      Util::error("DownscalerGradient: Unknown downscaler '" + mDownscalerName + "'");
    iOptions.check();
 }
 
-- 
2.43.0


From 47aab20aa93943982410730c47000ea794891655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 115/181] fix: bilinear downscaling finds the surrounding
 points for any grid orientation and does not read outside the grid

---
 src/client/Downscaler/Bilinear.cpp | 237 ++++++-----------------------
 src/client/Downscaler/Bilinear.h   |   2 -
 2 files changed, 43 insertions(+), 196 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 152ac23..5c1dbcb 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -189,161 +189,57 @@ void DownscalerBilinear::downscaleField(const Field& iInput, Field& iOutput,
 }
 
 bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, const vec2& iLons, int I, int J, int& I1, int& J1, int& I2, int& J2) {
-   // Use the four points surrounding the lookup point. Use the nearest neighbour
-   // and then figure out what side of this point the other there points are.
-   // Find out if current lookup point is right/above the nearest neighbour
-   bool isRight = iLon > iLons[I][J];
-   bool isAbove = iLat > iLats[I][J];
+   // Find the four points surrounding the lookup point. The nearest neighbour is one of these, so check
+   // the grid boxes that have this point as a corner.
    int nI = iLats.size();
    int nJ = iLats[0].size();
 
    assert(I < nI && I >= 0);
    assert(J < nJ && J >= 0);
 
-   // Check if we are outside the grid
-   // 0 1 2 3 x
-   // if(I == nI-1 || I == 0 || J == nJ -1 || J == 0)
-   //    return false;
-   if(isAbove && I == nI-1 && iLats[I-1][J] < iLats[I][J])
-      return false;
-   // x 0 1 2 3
-   if(!isAbove && I == 0 && iLats[0][J] < iLats[1][J])
-      return false;
-   // 3 2 1 0 x
-   if(isAbove && I == 0 && iLats[0][J] > iLats[1][J])
-      return false;
-   // x 3 2 1 0
-   if(!isAbove && I == nI-1 && iLats[I-1][J] > iLats[I][J])
-      return false;
-
-   if(isRight && J == nJ-1 && iLons[I][J-1] < iLons[I][J])
-      return false;
-   // x 0 1 2 3
-   if(!isRight && J == 0 && iLons[I][0] < iLons[I][1])
-      return false;
-   // 3 2 1 0 x
-   if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
-      return false;
-   // x 3 2 1 0
-   if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
-      return false;
-
-   // Are the lats/lons increating when the index increases?
-   bool Iinc = (I == 0) || (iLats[I][J] > iLats[I-1][J]);
-   bool Jinc = (J == 0) || (iLons[I][J] > iLons[I][J-1]);
-
-   getI(I, isAbove, Iinc, I1, I2);
-   getJ(J, isRight, Jinc, J1, J2);
-
-   #if 0
-   if(abs(iLon +10.1549) < 0.0001 && abs(iLat - 71.021) < 0.0001) {
-      std::cout << iLon << " " << iLat << " " << isRight << " " << isAbove << " " << Iinc << " " << Jinc << " " << I1 << " " << I2 << " " << J1 << " " << J2 <<
-         std::endl;
-      std::cout << "I " << I << " J " << J << std::endl;
-      std::cout << "nI " << nI << " nJ " << nJ << std::endl;
-      std::cout << iLats[I][J] << " " << iLats[I-1][J] << " " << Iinc << std::endl;
-      std::cout << iLons[I][J] << " " << iLons[I][J-1] << " " << Jinc << std::endl;
-   }
-   #endif
-
-   if((I1 < 0 || I1 >= iLats.size()) ||
-      (I2 < 0 || I2 >= iLats.size()) ||
-      (J1 < 0 || J1 >= iLats[0].size()) ||
-      (J2 < 0 || J2 >= iLats[0].size())) {
-      return false;
-   }
-   float s = Util::MV;
-   float t = Util::MV;
-
-   float x0 = iLons[I1][J1];
-   float x1 = iLons[I2][J1];
-   float x2 = iLons[I1][J2];
-   float x3 = iLons[I2][J2];
-   float y0 = iLats[I1][J1];
-   float y1 = iLats[I2][J1];
-   float y2 = iLats[I1][J2];
-   float y3 = iLats[I2][J2];
-   calcST(iLon, iLat, x0, x1, x2, x3, y0, y1, y2, y3, t, s);
-   # if 1
-   if(I == 91 && J == 193 && (s > 1 + bilinearLimit || s < -bilinearLimit || t > 1 + bilinearLimit || t < -bilinearLimit)) {
-      std::stringstream ss;
-      ss << "Problem: " << s << " " << t << std::endl;
-      ss << "coord: " << iLat << " " << iLon << std::endl;
-      ss << "above/right: " << isAbove << " " << isRight << std::endl;
-      ss << "inc: " << Iinc << " " << Jinc << std::endl;
-      ss << "IJ: " << I << " " << J << std::endl;
-      ss << "I: " << I1 << " " << I2 << std::endl;
-      ss << "J: " << J1 << " " << J2 << std::endl;
-      ss << "x: " << x0 << " " << x1 << " " << x2 << " " << x3 << std::endl;
-      ss << "y: " << y0 << " " << y1 << " " << y2 << " " << y3 << std::endl;
-      Util::warning(ss.str());
-   }
-   # endif
-   if(s > 1 + bilinearLimit || s < -bilinearLimit || t > 1 + bilinearLimit || t < -bilinearLimit) {
-      if(t < -bilinearLimit || t > 1 + bilinearLimit) {
-         // We likely used the wrong direction
-         isAbove = !isAbove;
-         getI(I, isAbove, Iinc, I1, I2);
-      }
-
-      if(s < -bilinearLimit || s > 1 + bilinearLimit) {
-         // We likely used the wrong direction
-         isRight = !isRight;
-         getJ(J, isRight, Jinc, J1, J2);
+   bool found = false;
+   float edgeLimit = 1e-4;
+   float minOutside = bilinearLimit;
+   for(int i = std::max(0, I-1); i <= std::min(nI-2, I); i++) {
+      for(int j = std::max(0, J-1); j <= std::min(nJ-2, J); j++) {
+         float x0 = iLons[i][j];
+         float x1 = iLons[i+1][j];
+         float x2 = iLons[i][j+1];
+         float x3 = iLons[i+1][j+1];
+         float y0 = iLats[i][j];
+         float y1 = iLats[i+1][j];
+         float y2 = iLats[i][j+1];
+         float y3 = iLats[i+1][j+1];
+         if(!Util::isValid(x0) || !Util::isValid(x1) || !Util::isValid(x2) || !Util::isValid(x3) ||
+            !Util::isValid(y0) || !Util::isValid(y1) || !Util::isValid(y2) || !Util::isValid(y3))
+            continue;
+         if((x2 - x0) * (y1 - y0) == (x1 - x0) * (y2 - y0) || (x2 - x3) * (y1 - y3) == (x1 - x3) * (y2 - y3))
+            continue; // The box has no area
+
+         float s = Util::MV;
+         float t = Util::MV;
+         calcST(iLon, iLat, x0, x1, x2, x3, y0, y1, y2, y3, t, s);
+         if(!Util::isValid(s) || !Util::isValid(t))
+            continue;
+
+         // Check if we are outside the grid
+         if((i == 0 && t > 1 + edgeLimit) || (i == nI-2 && t < -edgeLimit) ||
+            (j == 0 && s < -edgeLimit) || (j == nJ-2 && s > 1 + edgeLimit))
+            continue;
+
+         // How far outside the grid box are we?
+         float outside = std::max(0.f, std::max(std::max(-s, s - 1), std::max(-t, t - 1)));
+         if(outside < minOutside) {
+            minOutside = outside;
+            I1 = i;
+            I2 = i + 1;
+            J1 = j;
+            J2 = j + 1;
+            found = true;
+         }
       }
-      if(isAbove && I == nI-1 && iLats[I-1][J] < iLats[I][J])
-         return false;
-      // x 0 1 2 3
-      if(!isAbove && I == 0 && iLats[0][J] < iLats[1][J])
-         return false;
-      // 3 2 1 0 x
-      if(isAbove && I == 0 && iLats[0][J] > iLats[1][J])
-         return false;
-      // x 3 2 1 0
-      if(!isAbove && I == nI-1 && iLats[I-1][J] > iLats[I][J])
-         return false;
-
-      if(isRight && J == nJ-1 && iLons[I][J-1] < iLons[I][J])
-         return false;
-      // x 0 1 2 3
-      if(!isRight && J == 0 && iLons[I][0] < iLons[I][1])
-         return false;
-      // 3 2 1 0 x
-      if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
-         return false;
-      // x 3 2 1 0
-      if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
-         return false;
-      x0 = iLons[I1][J1];
-      x1 = iLons[I2][J1];
-      x2 = iLons[I1][J2];
-      x3 = iLons[I2][J2];
-      y0 = iLats[I1][J1];
-      y1 = iLats[I2][J1];
-      y2 = iLats[I1][J2];
-      y3 = iLats[I2][J2];
-      calcST(iLon, iLat, x0, x1, x2, x3, y0, y1, y2, y3, t, s);
    }
-
-   if(s > 1 + bilinearLimit || s < -bilinearLimit || t > 1 + bilinearLimit || t < -bilinearLimit) {
-      std::stringstream ss;
-      ss << "Problem: " << s << " " << t << std::endl;
-      ss << "coord: " << iLat << " " << iLon << std::endl;
-      ss << "above/right: " << isAbove << " " << isRight << std::endl;
-      ss << "inc: " << Iinc << " " << Jinc << std::endl;
-      ss << "IJ: " << I << " " << J << std::endl;
-      ss << "I: " << I1 << " " << I2 << std::endl;
-      ss << "J: " << J1 << " " << J2 << std::endl;
-      ss << "N: " << nI << " " << nJ << std::endl;
-      ss << "x: " << x0 << " " << x1 << " " << x2 << " " << x3 << std::endl;
-      ss << "y: " << y0 << " " << y1 << " " << y2 << " " << y3 << std::endl;
-      Util::error(ss.str());
-   }
-   assert(s <= 1 + bilinearLimit);
-   assert(s >= -bilinearLimit);
-   assert(t <= 1 + bilinearLimit);
-   assert(t >= - bilinearLimit);
-   return true;
+   return found;
 }
 bool DownscalerBilinear::calcST(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s) {
    float Y1 = y1;
@@ -452,53 +348,6 @@ bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float
    return true;
 }
 
-bool DownscalerBilinear::getI(int I, bool isAbove, bool Iinc, int& I1, int& I2) {
-// Find out which Is to use
-   if(isAbove) {
-      if(Iinc) {
-         I1 = I;
-         I2 = I + 1;
-      }
-      else {
-         I1 = I - 1;
-         I2 = I;
-      }
-   }
-   else {
-      if(Iinc) {
-         I1 = I - 1;
-         I2 = I;
-      }
-      else {
-         I1 = I;
-         I2 = I + 1;
-      }
-   }
-}
-
-bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2) {
-   // Find out which Js to use
-   if(isRight) {
-      if(Jinc) {
-         J1 = J;
-         J2 = J + 1;
-      }
-      else {
-         J1 = J - 1;
-         J2 = J;
-      }
-   }
-   else {
-      if(Jinc) {
-         J1 = J - 1;
-         J2 = J;
-      }
-      else {
-         J1 = J;
-         J2 = J + 1;
-      }
-   }
-}
 std::string DownscalerBilinear::description(bool full) {
    std::stringstream ss;
    if(full)
diff --git a/src/client/Downscaler/Bilinear.h b/src/client/Downscaler/Bilinear.h
index 588910c..d7d0bff 100644
--- a/src/client/Downscaler/Bilinear.h
+++ b/src/client/Downscaler/Bilinear.h
@@ -42,8 +42,6 @@ class DownscalerBilinear : public Downscaler {
       static bool calcParallelogram(float x, float y, float X1, float X2, float X3, float X4, float Y1, float Y2, float Y3, float Y4, float &t, float &s);
       static bool calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s);
       static bool calcST(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s);
-      static bool getI(int I, bool isAbove, bool Iinc, int& I1, int& I2);
-      static bool getJ(int J, bool isAbove, bool Jinc, int& J1, int& J2);
    private:
       void downscaleCore(const File& iInput, File& iOutput) const;
       static float bilinearLimit;
-- 
2.43.0


From 1836db6dc323bd09f2cf7f31f835e113dcbbd359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 116/181] fix: locations without valid coordinates get missing
 values from all downscalers

---
 src/client/Downscaler/Bilinear.cpp         | 11 +++++++++++
 src/client/Downscaler/Gradient.cpp         |  2 ++
 src/client/Downscaler/NearestNeighbour.cpp |  4 ----
 src/client/Downscaler/Pressure.cpp         |  6 ++++++
 src/client/Downscaler/Smart.cpp            |  2 ++
 5 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 5c1dbcb..64f9beb 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -96,6 +96,11 @@ vec2 DownscalerBilinear::downscaleVec(const vec2& iInput,
          int J = nearestJ[i][j];
          float lat = iOutputLats[i][j];
          float lon = iOutputLons[i][j];
+         if(!Util::isValid(I) || !Util::isValid(J)) {
+            // The lookup point does not have valid coordinates
+            output[i][j] = Util::MV;
+            continue;
+         }
          int I1 = Util::MV;
          int I2 = Util::MV;
          int J1 = Util::MV;
@@ -148,6 +153,12 @@ void DownscalerBilinear::downscaleField(const Field& iInput, Field& iOutput,
          int J = nearestJ[i][j];
          float lat = iOutputLats[i][j];
          float lon = iOutputLons[i][j];
+         if(!Util::isValid(I) || !Util::isValid(J)) {
+            // The lookup point does not have valid coordinates
+            for(int ee = 0; ee < nEns; ee++)
+               iOutput(i,j,ee) = Util::MV;
+            continue;
+         }
          // Find out if current lookup point is right/above the nearest neighbour
          int I1 = Util::MV;
          int I2 = Util::MV;
diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 3d67955..0f70f54 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -114,6 +114,8 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
          for(int j = 0; j < nLon; j++) {
             int Icenter = nearestI[i][j];
             int Jcenter = nearestJ[i][j];
+            if(!Util::isValid(Icenter) || !Util::isValid(Jcenter))
+               continue; // The lookup point does not have valid coordinates
             assert(Icenter < ielevs.size());
             assert(Jcenter < ielevs[Icenter].size());
             for(int e = 0; e < nEns; e++) {
diff --git a/src/client/Downscaler/NearestNeighbour.cpp b/src/client/Downscaler/NearestNeighbour.cpp
index 81a147c..0570b03 100644
--- a/src/client/Downscaler/NearestNeighbour.cpp
+++ b/src/client/Downscaler/NearestNeighbour.cpp
@@ -92,10 +92,6 @@ vec2 DownscalerNearestNeighbour::downscaleVec(const vec2& iInput,
          assert(j < nearestJ[i].size());
          int I = nearestI[i][j];
          int J = nearestJ[i][j];
-         assert(I < iInput.size());
-         assert(J < iInput[I].size());
-         assert(I >= 0);
-         assert(J >= 0);
          assert(i < output.size());
          assert(j < output[i].size());
          assert(i >= 0);
diff --git a/src/client/Downscaler/Pressure.cpp b/src/client/Downscaler/Pressure.cpp
index ae6d06f..76b8ea7 100644
--- a/src/client/Downscaler/Pressure.cpp
+++ b/src/client/Downscaler/Pressure.cpp
@@ -35,6 +35,12 @@ void DownscalerPressure::downscaleCore(const File& iInput, File& iOutput) const
          for(int j = 0; j < nLon; j++) {
             int Icenter = nearestI[i][j];
             int Jcenter = nearestJ[i][j];
+            if(!Util::isValid(Icenter) || !Util::isValid(Jcenter)) {
+               // The lookup point does not have valid coordinates
+               for(int e = 0; e < nEns; e++)
+                  ofield(i,j,e) = Util::MV;
+               continue;
+            }
             assert(Icenter < ielevs.size());
             assert(Jcenter < ielevs[Icenter].size());
             for(int e = 0; e < nEns; e++) {
diff --git a/src/client/Downscaler/Smart.cpp b/src/client/Downscaler/Smart.cpp
index 81a9b7c..a6be6b1 100644
--- a/src/client/Downscaler/Smart.cpp
+++ b/src/client/Downscaler/Smart.cpp
@@ -81,6 +81,8 @@ void DownscalerSmart::getSmartNeighbours(const File& iFrom, const File& iTo, vec
       for(int j = 0; j < nLon; j++) {
          int Ic = Icenter[i][j];
          int Jc = Jcenter[i][j];
+         if(!Util::isValid(Ic) || !Util::isValid(Jc))
+            continue; // The lookup point does not have valid coordinates
          float oelev = oelevs[i][j];
          float nnElev = ielevs[Ic][Jc];
          bool isWithinMinElev = Util::isValid(oelev) && Util::isValid(nnElev) && Util::isValid(mMinElevDiff) && 
-- 
2.43.0


From f1d2c44402f45d67a67b5de00200215ef4992d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 117/181] fix: bilinear interpolation works for boxes of any
 orientation with nearly parallel sides

---
 src/client/Downscaler/Bilinear.cpp | 74 +++++++-----------------------
 1 file changed, 17 insertions(+), 57 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 64f9beb..3772619 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -297,63 +297,23 @@ bool DownscalerBilinear::calcParallelogram(float x, float y, float X1, float X2,
 
 bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s) {
    // std::cout << "Method general" << std::endl;
-   float a = -x0 + x2;
-   float b = -x0 + x1;
-   float c = x0 - x1 - x2 + x3;
-   float d = x - x0;
-   float e = -y0 + y2;
-   float f = -y0 + y1;
-   float g = y0 - y1 - y2 + y3;
-   float h = y - y0;
-   float alpha=Util::MV, beta=Util::MV;
-   float Y1 = y1;
-   float Y2 = y3;
-   float Y3 = y0;
-   float Y4 = y2;
-   float X1 = x1;
-   float X2 = x3;
-   float X3 = x0;
-   float X4 = x2;
-   float X31 = X3 - X1;
-   float X21 = X2 - X1;
-   float Y42 = Y4 - Y2;
-   float Y21 = Y2 - Y1;
-   float Y31 = Y3 - Y1;
-   float Y43 = Y4 - Y3;
-   float X42 = X4 - X2;
-   float X43 = X4 - X3;
-   if(2 * c * e - 2 * a * g != 0 && 2 * c * f - 2 * b * g != 0) {
-      alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-      beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-   }
-   else if(2 * c * f - 2 * b * g == 0) {
-      // std::cout << "Need to diagnose t" << std::endl;
-      alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-      float s = alpha;
-      float t;
-      if(Y3 + Y43 * s - Y1 - Y21 * s == 0) {
-         assert(X3 + X43 * s - X1 - X21 * s != 0);
-         t = (x - X1 - X21 * s) / (X3 + X43 * s - X1 - X21 * s);
-      }
-      else {
-         t = (y - Y1 - Y21 * s) / (Y3 + Y43 * s - Y1 - Y21 * s);
-      }
-      beta = 1 - t;
-   }
-   else if(2 * c * e - 2 * a * g == 0) {
-      // std::cout << "Need to diagnose s" << std::endl;
-      beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-      float t =  1 - beta;
-      float s;
-      if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-         assert(X2 + X42 * t - X1 - X31 * t != 0);
-         s = (x - X1 - X31 * t) / (X2 + X42 * t - X1 - X31 * t);
-      }
-      else {
-         s = (y - Y1 - Y31 * t) / (Y2 + Y42 * t - Y1 - Y31 * t);
-      }
-      alpha = s;
-   }
+   // Solve d = a*s + b*(1-t) + c*s*(1-t) and h = e*s + f*(1-t) + g*s*(1-t)
+   double a = (double) x2 - x0;
+   double b = (double) x1 - x0;
+   double c = (double) x0 - x1 - x2 + x3;
+   double d = (double) x - x0;
+   double e = (double) y2 - y0;
+   double f = (double) y1 - y0;
+   double g = (double) y0 - y1 - y2 + y3;
+   double h = (double) y - y0;
+
+   // Which of the two solutions is inside the box depends on the orientation of the box. The quadratic
+   // formula is used on the form that is stable when the sides are (nearly) parallel.
+   double root = sqrt(pow(b * e - a * f + d * g - c * h, 2) - 4 * (c * e - a * g) * (d * f - b * h));
+   if(a * f - b * e < 0)
+      root = -root;
+   double alpha = 2 * (d * f - b * h) / (a * f - b * e - d * g + c * h + root);
+   double beta  = 2 * (a * h - d * e) / (a * f - b * e + d * g - c * h + root);
    s = alpha;
    t = 1 - beta;
    return true;
-- 
2.43.0


From 9683e64667a22a3ffcec8d7b2e5b12e63039fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 118/181] fix: the minPrecip option of the phase calibrator is
 used

---
 src/client/Calibrator/Phase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.cpp b/src/client/Calibrator/Phase.cpp
index fea6f41..6fec3c0 100644
--- a/src/client/Calibrator/Phase.cpp
+++ b/src/client/Calibrator/Phase.cpp
@@ -13,6 +13,7 @@ CalibratorPhase::CalibratorPhase(const Variable& iVariable, const Options& iOpti
    iOptions.getRequiredValue("precipitation", mPrecipitationVariable);
    iOptions.getValue("snowThreshold", mSnowThreshold);
    iOptions.getValue("rainThreshold", mRainThreshold);
+   iOptions.getValue("minPrecip", mMinPrecip);
    iOptions.check();
 }
 bool CalibratorPhase::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
-- 
2.43.0


From f11b8f01249459a01a1e3c7b1a43e6f199346b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 119/181] fix: missing winds and missing parameters are not
 used in the wind direction correction

---
 src/client/Calibrator/WindDirection.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/WindDirection.cpp b/src/client/Calibrator/WindDirection.cpp
index 9cfd3a1..d56aac9 100644
--- a/src/client/Calibrator/WindDirection.cpp
+++ b/src/client/Calibrator/WindDirection.cpp
@@ -44,9 +44,12 @@ bool CalibratorWindDirection::calibrateCore(File& iFile, const ParameterFile* iP
                parameters = parametersGlobal;
             for(int e = 0; e < nEns; e++) {
                float currDirection = direction(i,j,e);
-               if(Util::isValid(currDirection)) {
-                   float factor = getFactor(currDirection, parameters);
-                   wind(i,j,e) = factor*wind(i,j,e);
+               if(Util::isValid(currDirection) && Util::isValid(wind(i,j,e))) {
+                  float factor = getFactor(currDirection, parameters);
+                  if(Util::isValid(factor))
+                     wind(i,j,e) = factor*wind(i,j,e);
+                  else
+                     wind(i,j,e) = Util::MV;
                }
             }
          }
-- 
2.43.0


From f9006c2afa7539d15ec3d6374db183be08ba9b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 120/181] fix: a missing predictor gives a missing value in
 multivariate regression

---
 src/client/Calibrator/Regression.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Regression.cpp b/src/client/Calibrator/Regression.cpp
index 760b6a1..af714b2 100644
--- a/src/client/Calibrator/Regression.cpp
+++ b/src/client/Calibrator/Regression.cpp
@@ -73,7 +73,12 @@ bool CalibratorRegression::calibrateCore(File& iFile, const ParameterFile* iPara
                            total = Util::MV;
                            break;
                         }
-                        total += coeff*(*fields[p])(i,j,e);
+                        float predictor = (*fields[p])(i,j,e);
+                        if(!Util::isValid(predictor)) {
+                           total = Util::MV;
+                           break;
+                        }
+                        total += coeff*predictor;
                      }
                      (*field)(i,j,e)  = total;
                   }
-- 
2.43.0


From e3cb70c524aa5bf7372f14660fe6e28fa5ea5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 121/181] fix: regression without parameters gives missing
 values, not zero

---
 src/client/Calibrator/Regression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Regression.cpp b/src/client/Calibrator/Regression.cpp
index af714b2..17754c8 100644
--- a/src/client/Calibrator/Regression.cpp
+++ b/src/client/Calibrator/Regression.cpp
@@ -63,7 +63,7 @@ bool CalibratorRegression::calibrateCore(File& iFile, const ParameterFile* iPara
                parameters = parametersGlobal;
 
             for(int e = 0; e < nEns; e++) {
-               if(Util::isValid((*field)(i,j,e))) {
+               if(Util::isValid((*field)(i,j,e)) && parameters.size() > 0) {
                   if(multiVariate) {
                      float total = 0;
                      // Accumulate a + b * var1 + c * var2 ...
-- 
2.43.0


From 332fd4aa83a8ac7ef49716d72685b01eeebee3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 122/181] fix: zero slope extrapolation is used also when the
 curve has a single point

---
 src/client/Calibrator/Qq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Qq.cpp b/src/client/Calibrator/Qq.cpp
index 34335e6..9732239 100644
--- a/src/client/Calibrator/Qq.cpp
+++ b/src/client/Calibrator/Qq.cpp
@@ -115,7 +115,7 @@ bool CalibratorQq::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                         if(mPolicy == ExtrapolationPolicy::Zero) {
                            slope = 0;
                         }
-                        if(mPolicy == ExtrapolationPolicy::OneToOne || N <= 1) {
+                        else if(mPolicy == ExtrapolationPolicy::OneToOne || N <= 1) {
                            slope = 1;
                         }
                         else if(mPolicy == ExtrapolationPolicy::MeanSlope) {
-- 
2.43.0


From 962c5c2ed482fc87729b65c832e12750d1c17ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 123/181] fix: the diagnosed dewpoint of completely dry air is
 missing, not the air temperature

---
 src/client/Calibrator/DiagnoseHumidity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/DiagnoseHumidity.cpp b/src/client/Calibrator/DiagnoseHumidity.cpp
index c754650..98063bf 100644
--- a/src/client/Calibrator/DiagnoseHumidity.cpp
+++ b/src/client/Calibrator/DiagnoseHumidity.cpp
@@ -112,7 +112,8 @@ bool CalibratorDiagnoseHumidity::calibrateCore(File& iFile, const ParameterFile*
 }
 
 float CalibratorDiagnoseHumidity::computeDewpoint(float iTemperature, float iRelativeHumidity) {
-   if(Util::isValid(iTemperature) && Util::isValid(iRelativeHumidity)) {
+   // Completely dry air has no dewpoint
+   if(Util::isValid(iTemperature) && Util::isValid(iRelativeHumidity) && iRelativeHumidity > 0) {
       // Taken from https://github.com/metno/wdb2ts
       float tempC = iTemperature - 273.15;
       float e = (iRelativeHumidity)*0.611*exp( (17.63 * tempC) / (tempC + 243.04) );
-- 
2.43.0


From e54b8700f1234c1269388e2c1055c02fb4a058f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 124/181] fix: diagnosing an unknown humidity or wind variable
 is an error

---
 src/client/Calibrator/DiagnoseHumidity.cpp | 2 ++
 src/client/Calibrator/DiagnoseWind.cpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/client/Calibrator/DiagnoseHumidity.cpp b/src/client/Calibrator/DiagnoseHumidity.cpp
index 98063bf..eabca39 100644
--- a/src/client/Calibrator/DiagnoseHumidity.cpp
+++ b/src/client/Calibrator/DiagnoseHumidity.cpp
@@ -15,6 +15,8 @@ CalibratorDiagnoseHumidity::CalibratorDiagnoseHumidity(const Variable& iVariable
    iOptions.getValue("dewpoint", mDewpoint);
    iOptions.getValue("pressure", mPressure);
    iOptions.getRequiredValue("compute", mCompute);
+   if(mCompute != "dewpoint" && mCompute != "rh" && mCompute != "wetbulb")
+      Util::error("Cannot compute '" + mCompute + "'. Must be one of dewpoint, rh, or wetbulb");
    if(mCompute == "dewpoint" && mRh == "")
       Util::error("Dewpoint requires rh=");
    if(mCompute == "rh" && mDewpoint == "")
diff --git a/src/client/Calibrator/DiagnoseWind.cpp b/src/client/Calibrator/DiagnoseWind.cpp
index 6448d03..de770fa 100644
--- a/src/client/Calibrator/DiagnoseWind.cpp
+++ b/src/client/Calibrator/DiagnoseWind.cpp
@@ -14,6 +14,8 @@ CalibratorDiagnoseWind::CalibratorDiagnoseWind(const Variable& iVariable, const
    iOptions.getValue("speed", mSpeed);
    iOptions.getValue("direction", mDirection);
    iOptions.getRequiredValue("compute", mCompute);
+   if(mCompute != "x" && mCompute != "y" && mCompute != "speed" && mCompute != "direction")
+      Util::error("Cannot compute '" + mCompute + "'. Must be one of x, y, speed, or direction");
    if((mCompute == "x" || mCompute == "y") && (mSpeed == "" || mDirection == "")) {
       Util::error("Both speed and direction variables must be specified");
    }
-- 
2.43.0


From 0de22deb586c424e147f7cf4cf5809b761deea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 125/181] fix: the coastal calibrator uses the original values
 in the neighbourhood

---
 src/client/Calibrator/Coastal.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 7242a86..44a6fb2 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -38,6 +38,7 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
       if(!iParameterFile->isLocationDependent())
           parametersGlobal = iParameterFile->getParameters(t);
       const FieldPtr field = iFile.getField(mVariable, t);
+      const Field raw = *field; // The neighbourhood must not be affected by the calibrated values
 
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
@@ -52,17 +53,17 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                float upperValue = Util::MV;
                float minLaf = 2;
                float maxLaf = -1;
-               float nearestNeighbour = (*field)(i,j,e);
+               float nearestNeighbour = raw(i,j,e);
                // Find the range within a neighbourhood
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
                      if(currLaf < minLaf) {
-                        lowerValue = (*field)(ii,jj,e);
+                        lowerValue = raw(ii,jj,e);
                         minLaf = currLaf;
                      }
                      if(currLaf > maxLaf) {
-                        upperValue = (*field)(ii,jj,e);
+                        upperValue = raw(ii,jj,e);
                         maxLaf = currLaf;
                      }
                   }
-- 
2.43.0


From f9662adb07f3f1183cdbd6256c0329ab91913fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 126/181] fix: missing values, land area fractions and
 parameters are handled by the coastal calibrator

---
 src/client/Calibrator/Coastal.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 44a6fb2..4644e2b 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -25,8 +25,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
    vec2 elevs = iFile.getElevs();
    vec2 laf = iFile.getLandFractions();
 
-   if(iParameterFile->getNumParameters() == 0) {
-      Util::error("Parameter file '" + iParameterFile->getFilename() + "' must have at least one dataacolumns");
+   if(iParameterFile->getNumParameters() != 3) {
+      Util::error("Parameter file '" + iParameterFile->getFilename() + "' must have three datacolumns");
    }
    if(iParameterFile->isLocationDependent() == 0) {
       Util::error("Parameter file '" + iParameterFile->getFilename() + "' must be spatial");
@@ -58,6 +58,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
+                     if(!Util::isValid(currLaf))
+                        continue;
                      if(currLaf < minLaf) {
                         lowerValue = raw(ii,jj,e);
                         minLaf = currLaf;
@@ -78,14 +80,11 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(Util::isValid(lowerValue) && Util::isValid(upperValue) && (maxLaf - minLaf > mMinLafDiff))
                   gradient = (upperValue - lowerValue) / (maxLaf - minLaf);
                assert(Util::isValid(gradient));
-               assert(Util::isValid(nearestNeighbour));
 
                float value = Util::MV;
-               if(mUseNN)
-                  value = a + b * nearestNeighbour + c * gradient;
-               else
-                  value = a + b * lowerValue + c * gradient;
-               assert(Util::isValid(value));
+               float baseValue = mUseNN ? nearestNeighbour : lowerValue;
+               if(Util::isValid(baseValue) && Util::isValid(a) && Util::isValid(b) && Util::isValid(c))
+                  value = a + b * baseValue + c * gradient;
                (*field)(i,j,e) = value;
             }
          }
-- 
2.43.0


From e7b1fd2af0ac302072556c2ed74fb7de58b41c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 127/181] fix: quantile mapping does not give NaN when the
 points giving the extrapolation slope have identical forecasts

---
 src/client/Calibrator/Qq.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/Calibrator/Qq.cpp b/src/client/Calibrator/Qq.cpp
index 9732239..09bbd32 100644
--- a/src/client/Calibrator/Qq.cpp
+++ b/src/client/Calibrator/Qq.cpp
@@ -136,6 +136,9 @@ bool CalibratorQq::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                            }
                            slope = dObs / dFcst;
                         }
+                        // The slope is undefined when the forecasts used are identical
+                        if(!Util::isValid(slope))
+                           slope = 1;
                         value = nearestObs + slope * (raw - nearestFcst);
                      }
                      if(j == mX && i == mY) {
-- 
2.43.0


From bc88e48fa4ec46c88fc6308f3a2adb1fc6d4f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 128/181] fix: sorting members works when there are NaN or
 infinite members

---
 src/client/Calibrator/Sort.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Sort.cpp b/src/client/Calibrator/Sort.cpp
index a7557d9..1620031 100644
--- a/src/client/Calibrator/Sort.cpp
+++ b/src/client/Calibrator/Sort.cpp
@@ -24,11 +24,10 @@ bool CalibratorSort::calibrateCore(File& iFile, const ParameterFile* iParameterF
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
-            std::vector<float> values = field(i,j);
-            std::sort(values.begin(), values.end());
+            const std::vector<float> values = field(i,j);
 
-            // Create a new array with all the missing values
-            // at the end
+            // Create a new array with the sorted valid values first and
+            // all the missing values at the end
             std::vector<float> missingLast(nEns, Util::MV);
             int counter = 0;
             for(int e = 0; e < nEns; e++) {
@@ -37,6 +36,7 @@ bool CalibratorSort::calibrateCore(File& iFile, const ParameterFile* iParameterF
                   counter++;
                }
             }
+            std::sort(missingLast.begin(), missingLast.begin() + counter);
             for(int e = 0; e < nEns; e++) {
                field(i,j,e) = missingLast[e];
             }
-- 
2.43.0


From e084d5f49d3eee3579395424da53d2efb5eb7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 129/181] fix: the phase calibrator does not need a parameter
 file

---
 src/client/Calibrator/Phase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.h b/src/client/Calibrator/Phase.h
index a503a34..43ab012 100644
--- a/src/client/Calibrator/Phase.h
+++ b/src/client/Calibrator/Phase.h
@@ -9,6 +9,7 @@ class CalibratorPhase : public Calibrator {
       CalibratorPhase(const Variable& iVariable, const Options& iOptions);
       static std::string description(bool full=true);
       std::string name() const {return "phase";};
+      bool requiresParameterFile() const { return false; };
 
       //! Precipitation phase
       enum Phase {
-- 
2.43.0


From 163ed967fe6969a3868df32a21765c5e5e72c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 130/181] fix: the mask of one time does not include the areas
 of earlier times

---
 src/client/Calibrator/Mask.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Mask.cpp b/src/client/Calibrator/Mask.cpp
index 7143cfe..c7bff76 100644
--- a/src/client/Calibrator/Mask.cpp
+++ b/src/client/Calibrator/Mask.cpp
@@ -38,6 +38,7 @@ bool CalibratorMask::calibrateCore(File& iFile, const ParameterFile* iParameterF
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             if(t == 0 || iParameterFile->isTimeDependent()) {
+               isWithinRadius[i][j] = 0;
                Location loc(Util::MV, Util::MV, Util::MV);
                Location currLocation(lats[i][j], lons[i][j], elevs[i][j]);
                if(mUseNearestOnly) {
-- 
2.43.0


From 3c78881ef9989576e9e1f64c72e8abf1ce5304a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 131/181] fix: a negative window in deaccumulate is an error
 instead of reading out of bounds

---
 src/client/Calibrator/Deaccumulate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Deaccumulate.cpp b/src/client/Calibrator/Deaccumulate.cpp
index 3595ce1..8b86f17 100644
--- a/src/client/Calibrator/Deaccumulate.cpp
+++ b/src/client/Calibrator/Deaccumulate.cpp
@@ -5,6 +5,8 @@ CalibratorDeaccumulate::CalibratorDeaccumulate(const Variable& iVariable, const
       mWindow(1),
       Calibrator(iVariable, iOptions) {
    iOptions.getValue("window", mWindow);
+   if(mWindow < 0)
+      Util::error("CalibratorDeaccumulate: 'window' must be >= 0");
    iOptions.check();
 }
 bool CalibratorDeaccumulate::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
-- 
2.43.0


From 345905faefdd11f12c65ed959a45941c14d6b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 132/181] fix: neighbourhood mean and sum do not lose precision
 in large domains

---
 src/client/Calibrator/Neighbourhood.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/client/Calibrator/Neighbourhood.cpp b/src/client/Calibrator/Neighbourhood.cpp
index 324d29d..96fb352 100644
--- a/src/client/Calibrator/Neighbourhood.cpp
+++ b/src/client/Calibrator/Neighbourhood.cpp
@@ -80,7 +80,8 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
    int count_stat = 0;
    for(int e = 0; e < nEns; e++) {
       if(mFast && (mStatType == Util::StatTypeMean || mStatType == Util::StatTypeSum)) {
-         vec2 values;
+         // Double precision is needed for the sums, since these are for the whole domain
+         std::vector<std::vector<double> > values;
          vec2 counts;
          values.resize(nLat);
          counts.resize(nLat);
@@ -142,10 +143,10 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
                int j1 = std::min(nLon-1, j + radius);
                int i0 = i - radius - 1;
                int j0 = j - radius - 1;
-               float value11 = values[i1][j1];
-               float value00 = 0;
-               float value10 = 0;
-               float value01 = 0;
+               double value11 = values[i1][j1];
+               double value00 = 0;
+               double value10 = 0;
+               double value01 = 0;
                int count11 = counts[i1][j1];
                int count00 = 0;
                int count10 = 0;
@@ -166,7 +167,7 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
                   value01 = values[i0][j1];
                   count01 = counts[i0][j1];
                }
-               float value = value11 + value00 - value10 - value01;
+               double value = value11 + value00 - value10 - value01;
                int count = count11 + count00 - count10 - count01;
                if(count > 0) {
                   if(mStatType == Util::StatTypeMean) {
-- 
2.43.0


From fe054ff5fd421f29d0914a1587e98657b24bffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 133/181] fix: an invalid neighbourhood radius in the parameter
 file is an error

---
 src/client/Calibrator/Neighbourhood.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Neighbourhood.cpp b/src/client/Calibrator/Neighbourhood.cpp
index 96fb352..fda9416 100644
--- a/src/client/Calibrator/Neighbourhood.cpp
+++ b/src/client/Calibrator/Neighbourhood.cpp
@@ -74,7 +74,10 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
    int nLat = iInput.getNumY();
    int nLon = iInput.getNumX();
    if(iParameters != NULL) {
-      radius = (*iParameters)[0];
+      float parameterRadius = (*iParameters)[0];
+      if(!Util::isValid(parameterRadius) || parameterRadius < 0)
+         Util::error("CalibratorNeighbourhood: the radius in the parameter file must be >= 0");
+      radius = parameterRadius;
    }
 
    int count_stat = 0;
-- 
2.43.0


From 3d9359fe7897269ed02981890bfcfaad9c488eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 134/181] fix: the inverse logit of large values is 1, not NaN

---
 src/client/Util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 3c5ca1f..b447f2f 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -268,6 +268,9 @@ float Util::logit(float p) {
 float Util::invLogit(float x) {
    if(!Util::isValid(x))
       return Util::MV;
+   // exp(x) overflows for large values
+   if(x > 50)
+      return 1;
    return exp(x)/(exp(x)+1);
 }
 
-- 
2.43.0


From a822616cd74e25abd5d6a7f6f8f8de9d15bd6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 135/181] fix: the zaga calibrator ignores 6h when POP is not
 produced, instead of reading out of bounds

---
 src/client/Calibrator/Zaga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 5060da8..69d338c 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -55,7 +55,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
 
    int startTime = 0;
    int timeWindow = 1;
-   if(m6h) {
+   if(m6h && mPopVariable != "") {
       startTime = 5;
       timeWindow = 6;
    }
-- 
2.43.0


From ab1b66c2bdd07a4f90d1c5c0cad572cdd52dc6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 136/181] fix: the zaga calibrator uses the original values in
 the neighbourhood

---
 src/client/Calibrator/Zaga.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 69d338c..dd38eca 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -92,6 +92,9 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
          precipHigh = iFile.getField(mHighVariable, t);
       }
 
+      // The neighbourhood must not be affected by the calibrated values
+      const Field raw = *precips[t];
+
       #pragma omp parallel for reduction(+:numInvalidRaw, numInvalidCal)
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
@@ -121,7 +124,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                         float total = 0;
                         // Accumulate over the time window, if necessary
                         for(int tt = t-timeWindow + 1; tt <= t; tt++) {
-                           Field& precip = *precips[tt];
+                           const Field& precip = (tt == t) ? raw : *precips[tt];
 
                            float value = precip(ii,jj,e);
                            if(Util::isValid(total) && Util::isValid(value)) {
-- 
2.43.0


From aee87527394eb6701dfe7dd7ddae4905c2f9563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 137/181] fix: the gaussian calibrator uses the original values
 in the neighbourhood

---
 src/client/Calibrator/Gaussian.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 8447000..a87efbe 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -37,6 +37,9 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
       if(!iParameterFile->isLocationDependent())
          parametersGlobal = iParameterFile->getParameters(t);
 
+      // The neighbourhood must not be affected by the calibrated values
+      const Field original = field;
+
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
@@ -55,7 +58,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                // Create a neighbourhood ensemble
                for(int ii = std::max(0, i-mNeighbourhoodSize); ii <= std::min(nLat-1, i+mNeighbourhoodSize); ii++) {
                   for(int jj = std::max(0, j-mNeighbourhoodSize); jj <= std::min(nLon-1, j+mNeighbourhoodSize); jj++) {
-                     float value = field(ii,jj,e);
+                     float value = original(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
                         total2 += value*value;
-- 
2.43.0


From fffec9b049f5b661b28a0f2b71a05aee8b9f75ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 138/181] fix: the ensemble spread in the gaussian calibrator
 is not lost to roundoff

---
 src/client/Calibrator/Gaussian.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index a87efbe..2833307 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -50,8 +50,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                parameters = parametersGlobal;
 
             // Compute model variables
-            float total2 = 0;
-            float total = 0;
+            double total2 = 0;
+            double total = 0;
             int counter = 0;
             bool isValid = true;
             for(int e = 0; e < nEns; e++) {
@@ -61,7 +61,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                      float value = original(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
-                        total2 += value*value;
+                        total2 += (double) value*value;
                         counter++;
                      }
                   }
@@ -75,8 +75,9 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                float ensMean = Util::MV;
                float ensSpread = Util::MV;
                if(counter > 0) {
-                  ensMean = total / counter;
-                  ensSpread = sqrt(total2/counter - (ensMean*ensMean));
+                  double mean = total / counter;
+                  ensMean = mean;
+                  ensSpread = sqrt(std::max(0.0, total2/counter - mean*mean));
                }
 
                // Calibrate
-- 
2.43.0


From 28ce8b8c7f354ed0d7209520c37ae1dc55f1acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 139/181] fix: the gaussian calibrator does not calibrate
 ensembles with missing members

---
 src/client/Calibrator/Gaussian.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 2833307..4bd10d6 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -68,10 +68,14 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                }
             }
             const std::vector<float>& raw = field(i,j);
+            bool hasAllMembers = true;
+            for(int e = 0; e < nEns; e++) {
+               hasAllMembers = hasAllMembers && Util::isValid(raw[e]);
+            }
 
             // Only calibrate the ensemble if all members are available. Otherwise
             // use the raw members.
-            if(counter > 0) {
+            if(hasAllMembers && counter > 0) {
                float ensMean = Util::MV;
                float ensSpread = Util::MV;
                if(counter > 0) {
-- 
2.43.0


From 89670f7c9c2108a24361c30a39cef29a2cac2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 140/181] fix: the maxEnsMean option of the bct calibrator is
 used

---
 src/client/Calibrator/Bct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Bct.cpp b/src/client/Calibrator/Bct.cpp
index c6d018b..3f76838 100644
--- a/src/client/Calibrator/Bct.cpp
+++ b/src/client/Calibrator/Bct.cpp
@@ -9,6 +9,7 @@
 CalibratorBct::CalibratorBct(const Variable& iVariable, const Options& iOptions):
       Calibrator(iVariable, iOptions),
       mMaxEnsMean(100) {
+   iOptions.getValue("maxEnsMean", mMaxEnsMean);
    iOptions.check();
 }
 
-- 
2.43.0


From aeee0d3f96fa2a41ab7a06a992c67e8dec9fed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 141/181] fix: the bct calibrator does not produce negative
 values when the mean parameter is negative

---
 src/client/Calibrator/Bct.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Bct.cpp b/src/client/Calibrator/Bct.cpp
index 3f76838..6cfa5a3 100644
--- a/src/client/Calibrator/Bct.cpp
+++ b/src/client/Calibrator/Bct.cpp
@@ -149,6 +149,8 @@ float CalibratorBct::getInvCdf(float iQuantile, float iEnsMean, float iEnsStd, c
    float a = iParameters[0];
    float b = iParameters[1];
    double mu = a + b * iEnsMean;
+   if(mu < 0)
+      return Util::MV;
 
    // Compute sigma
    float c = iParameters[2];
-- 
2.43.0


From 1fd2dfe148089ab828f5289f8aadb5005e75b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 142/181] fix: the zaga calibrator does not stop the program
 when the distribution cannot be evaluated

---
 src/client/Calibrator/Zaga.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index dd38eca..295d353 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -292,8 +292,15 @@ float CalibratorZaga::getInvCdf(float iQuantile, float iEnsMean, float iEnsFrac,
       return Util::MV;
 
    // std::cout << mu << " " << sigma << " " << P0 << " " << shape << " " << scale << std::endl;
-   boost::math::gamma_distribution<> dist(shape, scale);
-   float value = boost::math::quantile(dist, quantileCont);
+   float value = Util::MV;
+   try {
+      boost::math::gamma_distribution<> dist(shape, scale);
+      value = boost::math::quantile(dist, quantileCont);
+   }
+   catch(const std::exception& e) {
+      // The quantile cannot be evaluated for these parameters
+      return Util::MV;
+   }
    if(!Util::isValid(value))
       return Util::MV;
    return value;
@@ -344,8 +351,15 @@ float CalibratorZaga::getCdf(float iThreshold, float iEnsMean, float iEnsFrac, c
       return Util::MV;
 
    // std::cout << mu << " " << sigma << " " << P0 << " " << shape << " " << scale << std::endl;
-   boost::math::gamma_distribution<> dist(shape, scale);
-   float contCdf = boost::math::cdf(dist, iThreshold) ;
+   float contCdf = Util::MV;
+   try {
+      boost::math::gamma_distribution<> dist(shape, scale);
+      contCdf = boost::math::cdf(dist, iThreshold);
+   }
+   catch(const std::exception& e) {
+      // The distribution cannot be evaluated for these parameters
+      return Util::MV;
+   }
    float cdf = P0 + (1 - P0)*contCdf;
    // std::cout << cdf << " " << P0 << " " << iThreshold << " " << contCdf << " " << shape << " " << scale << std::endl;
    if(!Util::isValid(cdf))
-- 
2.43.0


From f6ed96db773f0291e637a2edabe767425fcda28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 143/181] fix: the bct calibrator does not stop the program
 when the distribution cannot be evaluated

---
 src/client/Calibrator/Bct.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/client/Calibrator/Bct.cpp b/src/client/Calibrator/Bct.cpp
index 6cfa5a3..5d37d76 100644
--- a/src/client/Calibrator/Bct.cpp
+++ b/src/client/Calibrator/Bct.cpp
@@ -172,20 +172,27 @@ float CalibratorBct::getInvCdf(float iQuantile, float iEnsMean, float iEnsStd, c
       g = 10;
    double tau = exp(g);
 
-   boost::math::students_t_distribution<> dist(tau);
+   float z = Util::MV;
+   try {
+      boost::math::students_t_distribution<> dist(tau);
+
+      // Compute quantile in truncated-t distribution (Z)
+      float qz = Util::MV;
+      if(nu <= 0) {
+         qz = iQuantile * boost::math::cdf(dist, 1.0 / (sigma * fabs(nu)));
+      }
+      else {
+         qz = 1 - (1 - iQuantile) * boost::math::cdf(dist, 1.0 / (sigma * fabs(nu)));
+      }
 
-   // Compute quantile in truncated-t distribution (Z)
-   float qz = Util::MV;
-   if(nu <= 0) {
-      qz = iQuantile * boost::math::cdf(dist, 1.0 / (sigma * fabs(nu)));
+      // Compute threshold corresponding to this quantile
+      z = boost::math::quantile(dist, qz);
    }
-   else {
-      qz = 1 - (1 - iQuantile) * boost::math::cdf(dist, 1.0 / (sigma * fabs(nu)));
+   catch(const std::exception& e) {
+      // The quantile cannot be evaluated for these parameters
+      return Util::MV;
    }
 
-   // Compute threshold corresponding to this quantile
-   float z = boost::math::quantile(dist, qz);
-
    // Compute threshold in BCT distribution
    float value = Util::MV;
    if(nu != 0) {
-- 
2.43.0


From 86c769c97929b588ce20f166fc2895ee50d70e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 144/181] fix: dates and times before 1970 are correct

---
 src/client/Util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index b447f2f..19e38f8 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -165,13 +165,16 @@ std::string Util::gridppVersion() {
 }
 int Util::getDate(time_t iUnixTime) {
    boost::gregorian::date epoch(1970,1,1);
-   boost::gregorian::date_duration diff(iUnixTime/86400);
+   // Round down, also for times before the epoch
+   boost::gregorian::date_duration diff(iUnixTime/86400 - (iUnixTime % 86400 < 0));
    boost::gregorian::date newDate = epoch + diff;
 
    return newDate.year() * 10000 + newDate.month() * 100 + newDate.day();
 }
 int Util::getTime(time_t iUnixTime) {
    int numSeconds = iUnixTime % 86400;
+   if(numSeconds < 0)
+      numSeconds += 86400;
    int hh = numSeconds / 3600;
    int mm = (numSeconds / 60) % 60;
    int ss = numSeconds % 60;
-- 
2.43.0


From 79c4f4f986b9a44f1c1dbd5a57704e353ee79edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 145/181] fix: a long title in a formatted description is
 separated from the message

---
 src/client/Util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 19e38f8..13fec5e 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -317,7 +317,10 @@ std::string Util::formatDescription(std::string iTitle, std::string iMessage, in
    for(int i = 0; i < iTitleIndent; i++)
       curr << " ";
    curr  << iTitle;
-   int N = iTitleLength-curr.str().length();
+   int N = iTitleLength-(int)curr.str().length();
+   // Separate long titles from the message
+   if(N <= 0 && iTitle != "" && words.size() > 0)
+      N = 1;
    // Pad the remainder of the title with spaces
    for(int k = 0; k < N; k++) {
       curr << " ";
-- 
2.43.0


From d61a49ff873c7824e9bf645ac70153793a0901e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 146/181] fix: lines in formatted descriptions do not exceed
 the maximum length

---
 src/client/Util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 13fec5e..089fb11 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -329,7 +329,8 @@ std::string Util::formatDescription(std::string iTitle, std::string iMessage, in
    for(int i = 0; i < words.size(); i++) {
       std::string word = words[i];
       int currLength = curr.str().length();
-      if(currLength + word.length() > iMaxLength) {
+      // Words (except for the first) are preceded by a space
+      if(currLength + (i != 0) + word.length() > iMaxLength) {
          // Create a new line
          ss << curr.str();
          ss << std::endl;
-- 
2.43.0


From 9b708cad493919fa9758a83840039674eadc49b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 147/181] fix: quantiles outside [0,1] give missing values
 instead of reading out of bounds

---
 src/client/Util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 089fb11..f4de3d3 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -407,6 +407,8 @@ float Util::calculateStat(const std::vector<float>& iArray, Util::StatType iStat
          iQuantile = 0.5;
       if(iStatType == Util::StatTypeMax)
          iQuantile = 1;
+      if(!Util::isValid(iQuantile) || iQuantile < 0 || iQuantile > 1)
+         return Util::MV;
       // Remove missing
       std::vector<float> cleanHood;
       cleanHood.reserve(iArray.size());
-- 
2.43.0


From af678f27a1cea5132eb28e5750b9474c1da049ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 148/181] fix: interpolating to a missing value gives a missing
 value

---
 src/client/Util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index f4de3d3..d929dde 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -537,6 +537,9 @@ vec2 Util::inverse(const vec2 iMatrix) {
 float Util::interpolate(float x, const std::vector<float>& iX, const std::vector<float>& iY) {
    float y = Util::MV;
 
+   if(!Util::isValid(x) || iX.size() == 0)
+      return Util::MV;
+
    if(x > iX[iX.size()-1])
       return iY[iX.size()-1];
    if(x < iX[0])
-- 
2.43.0


From 27a9ab09a87fa7d56bad446f02e59e9ce8d32f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 149/181] fix: regression on linearly dependent predictors is
 an error

---
 src/client/Util.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index d929dde..3563ddc 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -628,8 +628,17 @@ std::vector<float> Util::regression(const std::vector<float>& iPredictand, const
 
    typedef permutation_matrix<std::size_t> pmatrix; 
    pmatrix pm(XTX.size1());
+   double largest = 0;
+   for(int i = 0; i < N; i++)
+      largest = std::max(largest, fabs(XTX(i,i)));
    int res = lu_factorize(XTX,pm);
-   assert(res == 0);
+   // Roundoff can give tiny but non-zero pivots
+   for(int i = 0; i < N; i++) {
+      if(fabs(XTX(i,i)) <= 1e-14 * N * largest)
+         res = 1;
+   }
+   if(res != 0)
+      Util::error("Cannot do regression, the predictors are linearly dependent");
 
 #if 0
    std::cout << "\npm" << std::endl;
-- 
2.43.0


From 1fd38a9c0ae02016d171a1db6667c046d5523b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 150/181] fix: the inverse of a singular matrix is missing even
 if roundoff hides the singularity

---
 src/client/Util.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 3563ddc..7033da9 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -474,10 +474,11 @@ vec2 Util::inverse(const vec2 iMatrix) {
       return vec2();
    }
 
-   boost::numeric::ublas::matrix<float> inverseMatrix(N,N);
+   boost::numeric::ublas::matrix<double> inverseMatrix(N,N);
 
    // Convert to matrix
-   boost::numeric::ublas::matrix<float> matrix(N,N);
+   double largest = 0;
+   boost::numeric::ublas::matrix<double> matrix(N,N);
    for(int i = 0; i < N; i++) {
       for(int j = 0; j < N; j++) {
          float value = iMatrix[i][j];
@@ -492,6 +493,7 @@ vec2 Util::inverse(const vec2 iMatrix) {
          }
          assert(iMatrix[i].size() > j);
          matrix(i,j) = iMatrix[i][j];
+         largest = std::max(largest, fabs(matrix(i,j)));
       }
    }
 
@@ -505,6 +507,12 @@ vec2 Util::inverse(const vec2 iMatrix) {
    // perform LU-factorization
    int res = lu_factorize(matrix,pm);
 
+   // Singular matrices can have a tiny but non-zero pivot due to roundoff
+   for(int i = 0; i < N; i++) {
+      if(fabs(matrix(i,i)) <= 1e-14 * N * largest)
+         res = 1;
+   }
+
    if( res != 0 ) {
       Util::warning("Could not compute inverse, unstable.");
       vec2 matrixVec;
@@ -517,7 +525,7 @@ vec2 Util::inverse(const vec2 iMatrix) {
    }
 
    // Initialize to identity matrix
-   inverseMatrix.assign(identity_matrix<float>(matrix.size1()));
+   inverseMatrix.assign(identity_matrix<double>(matrix.size1()));
 
    // Compute the inverse
    lu_substitute(matrix, pm, inverseMatrix);
-- 
2.43.0


From a9168ea9f264c6f60351b85a4072a68196f3d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 151/181] fix: the python module does not free vectors that it
 does not own

---
 swig/vector.i | 101 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 63 insertions(+), 38 deletions(-)

diff --git a/swig/vector.i b/swig/vector.i
index 585d9de..f613f00 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -56,12 +56,15 @@ namespace std {
         $1 = std::vector<DTYPE>(arg, arg+size);
     }
     else {
-        ptr = new std::vector<DTYPE>();
-        int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        std::vector<DTYPE>* input = NULL;
+        int test = swig::asptr($input, &input);
+        // Only free the vector if it was created by the conversion
+        if(SWIG_IsNewObj(test))
+            ptr = input;
+        if(input == NULL || !SWIG_IsOK(test)) {
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
-        $1 = *ptr;
+        $1 = *input;
     }
 }
 
@@ -87,12 +90,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<DTYPE>();
-        int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        std::vector<DTYPE>* input = NULL;
+        int test = swig::asptr($input, &input);
+        // Only free the vector if it was created by the conversion
+        if(SWIG_IsNewObj(test))
+            ptr = input;
+        if(input == NULL || !SWIG_IsOK(test)) {
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
-        $1 = ptr;
+        $1 = input;
     }
 }
 
@@ -119,12 +125,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<DTYPE>();
-        int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        std::vector<DTYPE>* input = NULL;
+        int test = swig::asptr($input, &input);
+        // Only free the vector if it was created by the conversion
+        if(SWIG_IsNewObj(test))
+            ptr = input;
+        if(input == NULL || !SWIG_IsOK(test)) {
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
-        $1 = ptr;
+        $1 = input;
     }
 }
 
@@ -219,12 +228,15 @@ namespace std {
         $1 = temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
-        int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        std::vector<std::vector<DTYPE> >* input = NULL;
+        int test = swig::asptr($input, &input);
+        // Only free the vector if it was created by the conversion
+        if(SWIG_IsNewObj(test))
+            ptr = input;
+        if(input == NULL || !SWIG_IsOK(test)) {
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
-        $1 = *ptr;
+        $1 = *input;
     }
 }
 
@@ -256,13 +268,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
-        swig::asptr($input, &ptr);
-        int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        std::vector<std::vector<DTYPE> >* input = NULL;
+        int test = swig::asptr($input, &input);
+        // Only free the vector if it was created by the conversion
+        if(SWIG_IsNewObj(test))
+            ptr = input;
+        if(input == NULL || !SWIG_IsOK(test)) {
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
-        $1 = ptr;
+        $1 = input;
     }
 }
 /* Same as the const version above */
@@ -294,13 +308,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
-        swig::asptr($input, &ptr);
-        int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        std::vector<std::vector<DTYPE> >* input = NULL;
+        int test = swig::asptr($input, &input);
+        // Only free the vector if it was created by the conversion
+        if(SWIG_IsNewObj(test))
+            ptr = input;
+        if(input == NULL || !SWIG_IsOK(test)) {
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
-        $1 = ptr;
+        $1 = input;
     }
 }
 
@@ -390,12 +406,15 @@ namespace std {
         $1 = temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
-        int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        std::vector<std::vector<std::vector<DTYPE> > >* input = NULL;
+        int test = swig::asptr($input, &input);
+        // Only free the vector if it was created by the conversion
+        if(SWIG_IsNewObj(test))
+            ptr = input;
+        if(input == NULL || !SWIG_IsOK(test)) {
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
-        $1 = *ptr;
+        $1 = *input;
     }
 }
 
@@ -431,12 +450,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
-        int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        std::vector<std::vector<std::vector<DTYPE> > >* input = NULL;
+        int test = swig::asptr($input, &input);
+        // Only free the vector if it was created by the conversion
+        if(SWIG_IsNewObj(test))
+            ptr = input;
+        if(input == NULL || !SWIG_IsOK(test)) {
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
-        $1 = ptr;
+        $1 = input;
     }
 }
 
@@ -473,12 +495,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
-        int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        std::vector<std::vector<std::vector<DTYPE> > >* input = NULL;
+        int test = swig::asptr($input, &input);
+        // Only free the vector if it was created by the conversion
+        if(SWIG_IsNewObj(test))
+            ptr = input;
+        if(input == NULL || !SWIG_IsOK(test)) {
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
-        $1 = ptr;
+        $1 = input;
     }
 }
 
-- 
2.43.0


From 08059fc47313ae6274fe8a86c00b29c3f4d28919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 152/181] fix: arrays that cannot be converted raise an
 exception instead of ending the python process

---
 swig/vector.i | 58 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/swig/vector.i b/swig/vector.i
index f613f00..ad3e463 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -46,10 +46,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -79,10 +81,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -114,10 +118,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -213,10 +219,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
@@ -252,12 +260,13 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
-        assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
         int s1 = array_size($input, 1);
@@ -292,12 +301,13 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
-        assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
         int s1 = array_size($input, 1);
@@ -387,10 +397,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
@@ -430,12 +442,13 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
-        assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
         int s1 = array_size($input, 1);
@@ -475,12 +488,13 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
-        assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
         int s1 = array_size($input, 1);
-- 
2.43.0


From 6391967a70f40185190d37b12e0c2abf44562daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 153/181] fix: get_lower_index and get_upper_index return -1
 when there is no such value

---
 include/gridpp.h | 4 ++--
 src/api/util.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gridpp.h b/include/gridpp.h
index e31e212..edeb799 100644
--- a/include/gridpp.h
+++ b/include/gridpp.h
@@ -1524,14 +1524,14 @@ namespace gridpp {
     /** Find the index in a vector that is equal to or just below a value
      *  @param iX Lookup value
      *  @param iValues 1D vector of lookup values. Must be sorted.
-     *  @returns The index into iValues that is equal to or just below iX
+     *  @returns The index into iValues that is equal to or just below iX (-1 if there is none)
     */
     int get_lower_index(float iX, const vec& iValues);
 
     /** Find the index in a vector that is equal to or just above a value
      *  @param iX Lookup value
      *  @param iValues 1D vector of lookup values. Must be sorted.
-     *  @returns The index into iValues that is equal to or just above iX
+     *  @returns The index into iValues that is equal to or just above iX (-1 if there is none)
     */
     int get_upper_index(float iX, const vec& iValues);
 
diff --git a/src/api/util.cpp b/src/api/util.cpp
index fa6bfd8..70bc465 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -343,7 +343,7 @@ vec gridpp::calc_even_quantiles(const vec& values, int num) {
 
 }
 int gridpp::get_lower_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = 0; i < (int) iValues.size(); i++) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -362,7 +362,7 @@ int gridpp::get_lower_index(float iX, const vec& iValues) {
     return index;
 }
 int gridpp::get_upper_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = iValues.size()-1; i >= 0; i--) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
-- 
2.43.0


From 4dc92aa0f872ce57f4d113f825a53665fd238343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 154/181] fix: results with uneven rows raise an exception in
 the python module

---
 swig/vector.i | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/swig/vector.i b/swig/vector.i
index ad3e463..a78a1f0 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -344,6 +344,10 @@ namespace std {
     int s1 = 0;
     if(s0 != 0)
         s1 = temp[0].size();
+    for(int i = 0; i < s0; i++) {
+        if(temp[i].size() != s1)
+            SWIG_exception(SWIG_RuntimeError, "The rows of the result do not have the same length");
+    }
     npy_intp dims[2] = {s0, s1};
     py_obj = PyArray_ZEROS(2, dims, NPY_DTYPE, 0);
     for(long i = 0; i < s0; i++) {
@@ -362,6 +366,10 @@ namespace std {
     int s1 = 0;
     if(s0 != 0)
         s1 = temp[0].size();
+    for(int i = 0; i < s0; i++) {
+        if(temp[i].size() != s1)
+            SWIG_exception(SWIG_RuntimeError, "The rows of the result do not have the same length");
+    }
     npy_intp dims[2] = {s0, s1};
     $result = PyArray_ZEROS(2, dims, NPY_DTYPE, 0);
     for(long i = 0; i < s0; i++) {
@@ -538,6 +546,14 @@ namespace std {
     int s2 = 0;
     if(s0 != 0 && s1 != 0)
         s2 = temp[0][0].size();
+    for(int i = 0; i < s0; i++) {
+        if(temp[i].size() != s1)
+            SWIG_exception(SWIG_RuntimeError, "The rows of the result do not have the same length");
+        for(int j = 0; j < s1; j++) {
+            if(temp[i][j].size() != s2)
+                SWIG_exception(SWIG_RuntimeError, "The rows of the result do not have the same length");
+        }
+    }
     npy_intp dims[3] = {s0, s1, s2};
     py_obj = PyArray_ZEROS(3, dims, NPY_DTYPE, 0);
     for(long i = 0; i < s0; i++) {
@@ -561,6 +577,14 @@ namespace std {
     int s2 = 0;
     if(s0 != 0 && s1 != 0)
         s2 = temp[0][0].size();
+    for(int i = 0; i < s0; i++) {
+        if(temp[i].size() != s1)
+            SWIG_exception(SWIG_RuntimeError, "The rows of the result do not have the same length");
+        for(int j = 0; j < s1; j++) {
+            if(temp[i][j].size() != s2)
+                SWIG_exception(SWIG_RuntimeError, "The rows of the result do not have the same length");
+        }
+    }
     npy_intp dims[3] = {s0, s1, s2};
     $result = PyArray_ZEROS(3, dims, NPY_DTYPE, 0);
     for(long i = 0; i < s0; i++) {
-- 
2.43.0


From de7397d1c4559da86ddd4dadd1d0b77f2fb24f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 155/181] fix: kriging applies the auxiliary weights of all
 previous members to a member

---
 src/client/Calibrator/Kriging.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 17d88ff..8b3e844 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -348,34 +348,34 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
 
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
-                  float rawValue = (*field)(i,j,e);
+                  float memberBias = finalBias;
 
                   // Adjust bias based on auxillary weight
                   if(mAuxVariable != "") {
                      float weight = auxWeights[i][j][e][t];
                      if(mOperator == Util::OperatorAdd || mOperator == Util::OperatorSubtract) {
-                        finalBias = finalBias * weight;
+                        memberBias = finalBias * weight;
                      }
                      else {
-                        finalBias = pow(finalBias, weight);
+                        memberBias = pow(finalBias, weight);
                      }
                   }
 
                   if(mOperator == Util::OperatorAdd) {
-                     (*field)(i,j,e) += finalBias;
+                     (*field)(i,j,e) += memberBias;
                   }
                   else if(mOperator == Util::OperatorSubtract) {
-                     (*field)(i,j,e) -= finalBias;
+                     (*field)(i,j,e) -= memberBias;
                   }
                   else if(mOperator == Util::OperatorMultiply) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) *= finalBias;
+                     (*field)(i,j,e) *= memberBias;
                   }
                   else if(mOperator == Util::OperatorDivide) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) /= finalBias;
+                     (*field)(i,j,e) /= memberBias;
                   }
                   else {
                      Util::error("Unrecognized operator in CalibratorKriging");
-- 
2.43.0


From 5768e4b66654343054433f043cd4a4672e858850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 156/181] fix: kriging adds the bias to missing values

---
 src/client/Calibrator/Kriging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 8b3e844..d960799 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -348,6 +348,8 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
 
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
+                  if(!Util::isValid((*field)(i,j,e)))
+                     continue;
                   float memberBias = finalBias;
 
                   // Adjust bias based on auxillary weight
-- 
2.43.0


From 81a148fb111058802e073ffda2349f52f8163b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 157/181] fix: kriging with operator=divide divides by the bias
 minus two

---
 src/client/Calibrator/Kriging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index d960799..2d1c962 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -344,7 +344,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(mOperator == Util::OperatorMultiply)
                   finalBias = finalBias + 1;
                else if(mOperator == Util::OperatorDivide)
-                  finalBias = finalBias - 1;
+                  finalBias = finalBias + 1;
 
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
-- 
2.43.0


From f8181fcc91b939f366abb05dba933b5a934263b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 158/181] fix: kriging uses a missing covariance as a number
 when a station has no elevation

---
 src/client/Calibrator/Kriging.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 2d1c962..ab8dd4d 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -203,7 +203,9 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
          // Improve conditioning of matrix when you have two or more stations
          // that are very close
          float factor = 0.414 / 0.5;
-         float R = calcCovar(iloc, jloc)*factor;
+         float R = calcCovar(iloc, jloc);
+         // Stations with missing metadata are not correlated with others
+         R = Util::isValid(R) ? R*factor : 0;
          // Store the number in both halves
          matrix[ii][jj] = R;
          matrix[jj][ii] = R;
-- 
2.43.0


From 8afcbf7a463ab8cc36bbf56fe3cab56c5ce39efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 159/181] fix: cross-validated kriging leaves out the wrong
 station

---
 src/client/Calibrator/Kriging.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index ab8dd4d..1cee850 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -297,6 +297,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
             // Don't use the nearest station when cross validating
             float maxCovar = Util::MV;
             int ImaxCovar = Util::MV;
+            vec2 cvInverse;
             if(mCrossValidate) {
                for(int ii = 0; ii < currS.size(); ii++) {
                   if(!Util::isValid(ImaxCovar) || currS[ii] > maxCovar) {
@@ -305,14 +306,17 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                   }
                }
                currS[ImaxCovar] = 0;
+               // Find the index of the station in the list of all stations
+               ImaxCovar = currI[ImaxCovar];
                vec2 cvMatrix = matrix;
-               for(int ii = 0; ii < currN; ii++) {
+               for(int ii = 0; ii < N; ii++) {
                   cvMatrix[ImaxCovar][ii] = 0;
                   cvMatrix[ii][ImaxCovar] = 0;
                }
                cvMatrix[ImaxCovar][ImaxCovar] = 1;
-               inverse = Util::inverse(cvMatrix);
+               cvInverse = Util::inverse(cvMatrix);
             }
+            const vec2& currInverse = mCrossValidate ? cvInverse : inverse;
 
             // Compute weights (matrix-vector product)
             std::vector<float> weights;
@@ -321,7 +325,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Only loop over non-zero values in the vector
                for(int jj = 0; jj < currN; jj++) {
                   int JJ = currI[jj];
-                  weights[ii] += inverse[ii][JJ] * currS[jj];
+                  weights[ii] += currInverse[ii][JJ] * currS[jj];
                }
             }
             // Set the weight of the nearest location to 0 when cross-validating
-- 
2.43.0


From 849aa349cec6401acbfbb37c8eab0e3cfadbdf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 160/181] fix: optimal interpolation in the client uses missing
 elevations as numbers

---
 src/client/Calibrator/Oi.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index a6c3c17..0737461 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -459,7 +459,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                int index = lLocIndices0[i];
                float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                float vdist = Util::MV;
-               if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+               if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                   vdist = gLocations[index].elev() - elev;
                float lafdist = 0;
                if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -576,7 +576,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                   lR(i, i) = gCi[index];
                   float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                   float vdist = Util::MV;
-                  if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+                  if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                      vdist = gLocations[index].elev() - elev;
                   float lafdist = 0;
                   if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -587,7 +587,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      int index_j = lLocIndices[j];
                      float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), gLocations[index_j].lat(), gLocations[index_j].lon(), true);
                      float vdist = Util::MV;
-                     if(Util::isValid(gLocations[index].elev() && Util::isValid(gLocations[index_j].elev())))
+                     if(Util::isValid(gLocations[index].elev()) && Util::isValid(gLocations[index_j].elev()))
                         vdist = gLocations[index].elev() - gLocations[index_j].elev();
                            float lafdist = 0;
                      if(Util::isValid(gLafs[index]) && Util::isValid(laf))
-- 
2.43.0


From 572f053ae354b55172042b2eb6210509eeb01e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 161/181] fix: optimal interpolation in the client uses missing
 land fractions of stations as numbers

---
 src/client/Calibrator/Oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 0737461..309e4e3 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -589,8 +589,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      float vdist = Util::MV;
                      if(Util::isValid(gLocations[index].elev()) && Util::isValid(gLocations[index_j].elev()))
                         vdist = gLocations[index].elev() - gLocations[index_j].elev();
-                           float lafdist = 0;
-                     if(Util::isValid(gLafs[index]) && Util::isValid(laf))
+                     float lafdist = 0;
+                     if(Util::isValid(gLafs[index]) && Util::isValid(gLafs[index_j]))
                         lafdist = gLafs[index] - gLafs[index_j];
 
                      lP(i, j) = calcRho(hdist, vdist, lafdist, mRhoType);
-- 
2.43.0


From b0f6b2a98b0ce292bbb2b8e48cd94418131c5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 162/181] fix: the extrapolation limit of optimal interpolation
 in the client uses the deviation of one station for all

---
 src/client/Calibrator/Oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 309e4e3..cc7efce 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -939,8 +939,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      if(!mExtrapolate) {
                         // Don't allow a final increment that is larger than any increment
                         // at station points
-                        float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                        float minInc = arma::min(lObs - (lY[e] + lYhat));
+                        float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                        float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                         if(x == mX && y == mY) {
                            std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                         }
-- 
2.43.0


From fd4791852379f93e4134db3afb781ebec7c21ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 163/181] fix: missing observations are used as zero by optimal
 interpolation with a transform

---
 src/client/Calibrator/Oi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index cc7efce..f6fe6ad 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -1148,7 +1148,7 @@ float CalibratorOi::calcRho(float iHDist, float iVDist, float iLDist, RhoType iT
 }
 
 float CalibratorOi::transform(float iValue) const {
-   if(mTransformType == TransformTypeNone)
+   if(mTransformType == TransformTypeNone || !Util::isValid(iValue))
       return iValue;
 
    if(iValue <= 0)
-- 
2.43.0


From 9b9200134d751200000c7202dc0966663877d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 164/181] fix: observations in the client do not reach as far
 in increasing as in decreasing rows and columns

---
 src/client/Calibrator/Oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index f6fe6ad..c7a2298 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -269,8 +269,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                bool wrongLaf = Util::isValid(gLafs[i]) && mLandOnly && gLafs[i] == 0;
                if(!wrongLaf) {
                   if(isRegularGrid) {
-                     for(int y = std::max(0, Y - gridpointRadius); y < std::min(nY, Y + gridpointRadius); y++) {
-                        for(int x = std::max(0, X - gridpointRadius); x < std::min(nX, X + gridpointRadius); x++) {
+                     for(int y = std::max(0, Y - gridpointRadius); y <= std::min(nY - 1, Y + gridpointRadius); y++) {
+                        for(int x = std::max(0, X - gridpointRadius); x <= std::min(nX - 1, X + gridpointRadius); x++) {
                            gLocIndices[y][x].push_back(i);
                         }
                      }
-- 
2.43.0


From 9c690891bb48e091709ad6e29998f75084663b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 165/181] fix: optimal interpolation in the client aborts when
 an elevation is missing and elevGradient is used

---
 src/client/Calibrator/Oi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index c7a2298..5ad5338 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -384,10 +384,10 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          float elevCorr = 0;
          if(Util::isValid(mElevGradient) && mElevGradient != 0) {
             float nnElev = elevs[gYi[i]][gXi[i]];
-            assert(Util::isValid(nnElev));
-            assert(Util::isValid(gLocations[i].elev()));
-            float elevDiff = gLocations[i].elev() - nnElev;
-            elevCorr = mElevGradient * elevDiff;
+            if(Util::isValid(nnElev) && Util::isValid(gLocations[i].elev())) {
+               float elevDiff = gLocations[i].elev() - nnElev;
+               elevCorr = mElevGradient * elevDiff;
+            }
          }
          float total = 0;
          int count = 0;
-- 
2.43.0


From 5260e5338ab994b588439333909205d8c3a2fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 166/181] fix: optimal interpolation in the client aborts when
 only observations are given

---
 src/client/Calibrator/Oi.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 5ad5338..327e41d 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -229,6 +229,9 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
    }
 
    int numParameters = iParameterFile->getNumParameters();
+   if(!Util::isValid(numParameters) || numParameters < 1) {
+      Util::error("OI requires the same number of parameters (1 to 3) for all locations and times");
+   }
 
    // For each gridpoint, find which observations are relevant. Parse the observations and only keep
    // those that pass certain checks
@@ -680,7 +683,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
             else {
                // Compute Rinv
                mattype Rinv(lS, lS, arma::fill::zeros);
-               if(numParameters == 2) {
+               if(numParameters <= 2) {
                   for(int i = 0; i < lS; i++) {
                      int index = lLocIndices[i];
                      Rinv(i, i) = lRhos[i] / (mSigma * mSigma * gCi[index]);
-- 
2.43.0


From 11b359d3eb6b1490dd14138918b4e39db9ce56e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 167/181] fix: no extrapolation limit in the client when an
 observation equals the background

---
 src/client/Calibrator/Oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 327e41d..15f69d9 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -956,13 +956,13 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                         if(x == mX && y == mY) {
                            std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                         }
-                        if(maxInc > 0 && memberIncrement > maxInc) {
+                        if(maxInc >= 0 && memberIncrement > maxInc) {
                            currIncrement = maxInc + X(e);
                         }
                         else if(maxInc < 0 && memberIncrement > 0) {
                            currIncrement = 0 + X(e);
                         }
-                        else if(minInc < 0 && memberIncrement < minInc) {
+                        else if(minInc <= 0 && memberIncrement < minInc) {
                            currIncrement = minInc + X(e);
                         }
                         else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From 1d49ad256676001189df4ee8630b441c5560f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 168/181] fix: smoothing in optimal interpolation reads already
 smoothed values

---
 src/client/Calibrator/Oi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 15f69d9..2adf84b 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -1022,7 +1022,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      }
                   }
                }
-               smoothers[r].calibrateField(*sigmaTransformed, *sigmaTransformed);
+               Field sigmaCopy = *sigmaTransformed;
+               smoothers[r].calibrateField(sigmaCopy, *sigmaTransformed);
             }
 
             #pragma omp parallel for
@@ -1052,7 +1053,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                }
             } // end for Backtransf
             // Smooth the output field
-            outputSmoother.calibrateField(*output, *output);
+            Field outputCopy = *output;
+            outputSmoother.calibrateField(outputCopy, *output);
          }
       }
       else {
-- 
2.43.0


From b508f747050eab936d308d127259e80e357719bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 169/181] fix: back transform of optimal interpolation in the
 client is infinite or constant for some values of lambda

---
 src/client/Calibrator/Oi.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 2adf84b..ae3ae47 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -1034,12 +1034,15 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      float sigmaValue = (*sigmaTransformed)(y, x, e);
                      // (*output)(y, x, e) = (*sigmaTransformed)(y, x, e);
                      if(Util::isValid(value)) {
-                        if(sigmaValue==0 || value<transform(mBoxCoxThreshold)) {
+                        if(sigmaValue==0 || value<transform(mBoxCoxThreshold) || mLambda * value + 1 <= 0) {
                           (*output)(y, x, e) = invTransform(value);
                         }
                         else {
-                           float f = pow(mLambda * value + 1, 1 / mLambda);
-                           float f2 = pow((1 - mLambda) * (mLambda * value + 1), 1 / mLambda - 2);
+                           // The inverse transform and its second derivative
+                           float f = invTransform(value);
+                           float f2 = f;
+                           if(mLambda != 0)
+                              f2 = (1 - mLambda) * pow(mLambda * value + 1, 1 / mLambda - 2);
                            if(x == mX && y == mY) {
                               // TODO: Is it * f2?
                               std::cout <<  (*sigmaTransformed)(y, x, e) << " " <<  (*output)(y, x, e)
-- 
2.43.0


From ba04e375299497a54d2ec7c49dd8eedc7954548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 170/181] fix: training of kriging loses precision when there
 are many values

---
 src/client/Calibrator/Kriging.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 1cee850..74d601a 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -434,8 +434,9 @@ float CalibratorKriging::calcCovar(const Location& loc1, const Location& loc2) c
 
 Parameters CalibratorKriging::train(const std::vector<ObsEns>& iData) const {
    double timeStart = Util::clock();
-   float totalObs = 0;
-   float totalFcst = 0;
+   // Use double precision, since the bias is small compared to the sums
+   double totalObs = 0;
+   double totalFcst = 0;
    int counter = 0;
    // Compute predictors in model
    for(int i = 0; i < iData.size(); i++) {
-- 
2.43.0


From 9ce93d17144033af8781ac867887a66997e90dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 171/181] fix: training of kriging without valid data gives a
 factor of zero instead of no correction

---
 src/client/Calibrator/Kriging.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 74d601a..ddac2b3 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -454,7 +454,10 @@ Parameters CalibratorKriging::train(const std::vector<ObsEns>& iData) const {
       std::stringstream ss;
       ss << "CalibratorKriging: No valid data, no correction will be made.";
       Util::warning(ss.str());
-      bias = 0;
+      if(mOperator == Util::OperatorMultiply || mOperator == Util::OperatorDivide)
+         bias = 1;
+      else
+         bias = 0;
    }
    else {
       if(mOperator == Util::OperatorAdd) {
-- 
2.43.0


From 225952a66b21b8d50e93a6e4650d8720f57b6f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 172/181] fix: training of qq with quantiles divides by zero
 with one valid pair

---
 src/client/Calibrator/Qq.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Qq.cpp b/src/client/Calibrator/Qq.cpp
index 09bbd32..fb60112 100644
--- a/src/client/Calibrator/Qq.cpp
+++ b/src/client/Calibrator/Qq.cpp
@@ -194,8 +194,8 @@ Parameters CalibratorQq::train(const std::vector<ObsEns>& iData) const {
    }
    else if(mQuantiles.size() > 0) {
       int N = obs.size();
-      std::vector<float> x(N);
-      for(int i = 0; i < N; i++) {
+      std::vector<float> x(N, 0);
+      for(int i = 0; i < N && N > 1; i++) {
          x[i] = (float) i / (N-1);
       }
       for(int i = 0; i < mQuantiles.size(); i++) {
-- 
2.43.0


From 012874130d30ea121eace86fef0c5c7811995bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 173/181] fix: training of coastal uses missing land fractions
 as numbers

---
 src/client/Calibrator/Coastal.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 4644e2b..6725e8d 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -112,6 +112,8 @@ Parameters CalibratorCoastal::train(const std::vector<ObsEnsField>& iData, const
    for(int ii = std::max(0, iIens-mSearchRadius); ii <= std::min(nLat-1, iIens+mSearchRadius); ii++) {
       for(int jj = std::max(0, iJens-mSearchRadius); jj <= std::min(nLon-1, iJens+mSearchRadius); jj++) {
          float currLaf = laf[ii][jj];
+         if(!Util::isValid(currLaf))
+            continue;
          if(currLaf < minLaf) {
             Imin = ii;
             Jmin = jj;
@@ -125,23 +127,25 @@ Parameters CalibratorCoastal::train(const std::vector<ObsEnsField>& iData, const
       }
    }
 
-   bool useRange = (maxLaf - minLaf) > mMinLafDiff;
+   bool hasLaf = Util::isValid(Imin) && Util::isValid(Imax);
+   bool useRange = hasLaf && (maxLaf - minLaf) > mMinLafDiff;
    if(!useRange && 0)
       std::cout << "not using range for " << iIens << "," << iJens << " range = " << (maxLaf - minLaf) << std::endl;
    // useRange = 0;
 
-   assert(Util::isValid(Imax));
-   assert(Util::isValid(Jmax));
-
    // Compute predictors in model
    std::vector<float> values;
    std::vector<std::vector<float> > x(2);
    for(int i = 0; i < iData.size(); i++) {
       float obs = (*iData[i].first)(iIobs, iJobs, 0);
-      std::vector<float> ensMin = (*iData[i].second)(Imin, Jmin);
-      float valueMin = Util::calculateStat(ensMin, Util::StatTypeMean);
-      std::vector<float> ensMax = (*iData[i].second)(Imax, Jmax);
-      float valueMax = Util::calculateStat(ensMax, Util::StatTypeMean);
+      float valueMin = Util::MV;
+      float valueMax = Util::MV;
+      if(hasLaf) {
+         std::vector<float> ensMin = (*iData[i].second)(Imin, Jmin);
+         valueMin = Util::calculateStat(ensMin, Util::StatTypeMean);
+         std::vector<float> ensMax = (*iData[i].second)(Imax, Jmax);
+         valueMax = Util::calculateStat(ensMax, Util::StatTypeMean);
+      }
       std::vector<float> ensNn = (*iData[i].second)(iIens, iJens);
       float valueNN = Util::calculateStat(ensNn, Util::StatTypeMean);
       if(Util::isValid(obs) && Util::isValid(valueNN)) {
-- 
2.43.0


From 574c600dacc34482fa1ed3cf62b083857cbd1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 174/181] fix: training of coastal uses missing forecasts as
 numbers

---
 src/client/Calibrator/Coastal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 6725e8d..8b7fe9a 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -148,7 +148,7 @@ Parameters CalibratorCoastal::train(const std::vector<ObsEnsField>& iData, const
       }
       std::vector<float> ensNn = (*iData[i].second)(iIens, iJens);
       float valueNN = Util::calculateStat(ensNn, Util::StatTypeMean);
-      if(Util::isValid(obs) && Util::isValid(valueNN)) {
+      if(Util::isValid(obs) && Util::isValid(valueNN) && (mUseNN || Util::isValid(valueMin))) {
          float gradient = 0;
          if(Util::isValid(valueMin) && Util::isValid(valueMax))
             gradient = (valueMax - valueMin)/(maxLaf - minLaf);
-- 
2.43.0


From c6e1b613b1c1bfc1d1aeaac62680e83cc0344f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 175/181] fix: training of zaga rounds the ensemble fraction
 down to 0 or 1

---
 src/client/Calibrator/Zaga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 295d353..62456ef 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -438,7 +438,7 @@ Parameters CalibratorZaga::train(const std::vector<ObsEns>& iData) const {
          }
       }
       if(valid > 0)
-         frac[i] = total / valid;
+         frac[i] = (float) total / valid;
       else
          abort();
       assert(frac[i] >= 0 && frac[i] <= 1);
-- 
2.43.0


From 1354cb083d293770f680b2c4773218cede3ca2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 176/181] fix: training of zaga aborts when observations or
 ensembles are missing

---
 src/client/Calibrator/Zaga.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 62456ef..258b31b 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -421,14 +421,11 @@ Parameters CalibratorZaga::train(const std::vector<ObsEns>& iData) const {
       return Parameters();
    }
    std::vector<float> obs, mean, frac;
-   obs.resize(iData.size(), Util::MV);
-   mean.resize(iData.size(), Util::MV);
-   frac.resize(iData.size(), Util::MV);
    // Compute predictors in model
    for(int i = 0; i < iData.size(); i++) {
-      obs[i] = iData[i].first;
+      float currObs = iData[i].first;
       std::vector<float> ens = iData[i].second;
-      mean[i] = Util::calculateStat(ens, Util::StatTypeMean);
+      float currMean = Util::calculateStat(ens, Util::StatTypeMean);
       int total = 0;
       int valid = 0;
       for(int j = 0; j < ens.size(); j++) {
@@ -437,11 +434,16 @@ Parameters CalibratorZaga::train(const std::vector<ObsEns>& iData) const {
             valid++;
          }
       }
-      if(valid > 0)
-         frac[i] = (float) total / valid;
-      else
-         abort();
-      assert(frac[i] >= 0 && frac[i] <= 1);
+      // The distribution is only defined for valid non-negative values
+      if(!Util::isValid(currObs) || currObs < 0 || !Util::isValid(currMean) || currMean < 0 || valid == 0)
+         continue;
+      obs.push_back(currObs);
+      mean.push_back(currMean);
+      frac.push_back((float) total / valid);
+   }
+   if(obs.size() == 0) {
+      std::cout << "No data to train on...";
+      return Parameters();
    }
 
    int N = mean.size();
-- 
2.43.0


From 0c5f4d0d95ca8be58a422097a1d1d3a8d016cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 177/181] fix: bilinear interpolation aborts in trapezoidal
 cells of descending grids

---
 src/api/bilinear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 70d7765..f31047a 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -267,7 +267,7 @@ namespace {
             // std::cout << "Need to diagnose s" << std::endl;
             beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
             if(!is_within_range(beta))
-                beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
+                beta  = (b * e - a * f - d * g + c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
             float t =  1 - beta;
             float s;
             if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-- 
2.43.0


From 761ce6596c1599cdf846576be9988bff4eaf80ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:41 +0000
Subject: [PATCH 178/181] fix: the last row of a text file is lost when the
 file does not end with a newline

---
 src/client/File/Point.cpp         | 14 ++++++--------
 src/client/File/Text.cpp          |  7 +++----
 src/client/ParameterFile/Text.cpp |  9 ++++-----
 3 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index b13b74a..3594200 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -52,10 +52,9 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
    // Determine time and ensemble dimension if possible
    std::ifstream ifs(getFilename().c_str());
    if(ifs.good()) {
-      while(ifs.good()) {
-         char line[10000];
-         ifs.getline(line, 10000, '\n');
-         if(ifs.good() && line[0] != '#') {
+      std::string line;
+      while(std::getline(ifs, line)) {
+         if(line[0] != '#') {
             std::stringstream ss(line);
             double time;
             ss >> time;
@@ -98,10 +97,9 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
 
    int row = 0;
    int timeIndex = 0; // Index of the row among the rows with data
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
          std::stringstream ss(line);
          double time;
          ss >> time;
diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index 039263f..ab1bd2a 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -17,10 +17,9 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
    std::set<Location> locationsSet;
    std::map<int, std::map<Location, std::vector<float> > > values;
    mNEns = Util::MV;
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
          std::stringstream ss(line);
          // Loop over each value
          std::vector<float> currValues;
diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index bbb6ff0..63edef8 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -23,11 +23,10 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
    int latPos = Util::MV;
    int lonPos = Util::MV;
    int elevPos = Util::MV;
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
-         header = std::string(line);
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
+         header = line;
          std::stringstream ss(header);
          if(columnNames.size() == 0) {
             int currCounter = 0;
-- 
2.43.0


From 24aeccec461645920d738dbe14d9559e9ce3426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:53 +0000
Subject: [PATCH 179/181] fix: missing times of a NetCDF file are read as
 numbers

---
 src/client/File/Netcdf.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 62b6c74..f7d8079 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -163,6 +163,8 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
       }
       int status = nc_get_var_double(mFile, vReferenceTime, &referenceTime);
       handleNetcdfError(status, "could not get reference time");
+      if((float) referenceTime == getMissingValue(vReferenceTime))
+         referenceTime = Util::MV;
       setReferenceTime(referenceTime);
    }
 
@@ -175,6 +177,11 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
          double* times = new double[size];
          int status = nc_get_var_double(mFile, mTimeVar, times);
          handleNetcdfError(status, "could not get times");
+         float timeMV = getMissingValue(mTimeVar);
+         for(int i = 0; i < size; i++) {
+            if((float) times[i] == timeMV)
+               times[i] = Util::MV;
+         }
          setTimes(std::vector<double>(times, times+size));
          delete[] times;
       }
@@ -183,6 +190,8 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
          double time = Util::MV;
          int status = nc_get_var_double(mFile, mTimeVar, &time);
          handleNetcdfError(status, "could not get time");
+         if((float) time == getMissingValue(mTimeVar))
+            time = Util::MV;
          std::vector<double> times(1, time);
          setTimes(times);
       }
-- 
2.43.0


From 349762cf1df10e08d9ec1e4e86a93e7a76e4e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:11 +0000
Subject: [PATCH 180/181] fix: infinite values count in verification scores and
 optimal thresholds

---
 src/api/metric_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index ec82f85..6575eff 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -33,6 +33,8 @@ namespace {
                 min = gridpp::MV;
                 max = gridpp::MV;
                 for(int i = 0; i < N; i++) {
+                    if(!gridpp::is_valid(fcst[i]))
+                        continue;
                     if(!gridpp::is_valid(min) || fcst[i] < min) {
                         min = fcst[i];
                     }
@@ -200,6 +202,8 @@ float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, float
     float a = 0, b = 0, c = 0, d = 0;
     int N = fcst.size();
     for(int t = 0; t < N; t++) {
+        if(!gridpp::is_valid(ref[t]) || !gridpp::is_valid(fcst[t]))
+            continue;
         if(fcst[t] > fthreshold) {
             if(ref[t] > threshold)
                 a++;
-- 
2.43.0


From fa8f158d50e4c405f98fbd14ed039bd9e2f7e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:55 +0000
Subject: [PATCH 181/181] fix: sums and means over a window lose precision
 along long rows

---
 src/api/window.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index 99ca341..378f2cb 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -38,7 +38,8 @@ vec2 gridpp::window(const vec2& array,
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
         if (statistic == gridpp::Mean || statistic == gridpp::Sum || statistic == gridpp::Count) {
-            vec values = vec(array[y].size(), 0);
+            // Double precision is needed for the sums, since these are for the whole row
+            dvec values = dvec(array[y].size(), 0);
             vec counts = vec(array[y].size(), 0);
 
             for(int x = 0; x < array[y].size(); x++) {
@@ -76,7 +77,7 @@ vec2 gridpp::window(const vec2& array,
                 }
 
                 // Accumulated values before the window starts (nothing at the start of the array)
-                float values_before = start > 0 ? values[start - 1] : 0;
+                double values_before = start > 0 ? values[start - 1] : 0;
                 float counts_before = start > 0 ? counts[start - 1] : 0;
 
                 if(counts[end] - counts_before != 0) {
-- 
2.43.0


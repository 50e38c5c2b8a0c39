From e9e4c7d1c2aa4bd91a377ecf256f2ccb32dfaa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 001/124] fix: window reads before the start of the row and
 loses precision in running sums

---
 src/api/window.cpp | 49 +++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index d72305f..5505b45 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -31,25 +31,18 @@ vec2 gridpp::window(const vec2& array,
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
         if (statistic == gridpp::Mean || statistic == gridpp::Sum || statistic == gridpp::Count) {
-            vec values = vec(array[y].size(), 0);
-            vec counts = vec(array[y].size(), 0);
+            // Accumulate in double precision, since the differences below cancel most of the sums
+            dvec values(array[y].size(), 0);
+            ivec counts(array[y].size(), 0);
 
             for(int x = 0; x < array[y].size(); x++) {
-                if(x == 0) {
-                    if(gridpp::is_valid(array[y][x])) {
-                        values[x] = array[y][x];
-                        counts[x] = 1;
-                    }
+                if(x > 0) {
+                    values[x] = values[x-1];
+                    counts[x] = counts[x-1];
                 }
-                else{
-                    if(gridpp::is_valid(array[y][x])) {
-                        values[x] = array[y][x] + values[x-1];
-                        counts[x] = counts[x-1] + 1;
-                    }
-                    else{
-                        values[x] = values[x-1];
-                        counts[x] = counts[x-1];
-                    }
+                if(gridpp::is_valid(array[y][x])) {
+                    values[x] += array[y][x];
+                    counts[x]++;
                 }
             }
 
@@ -68,28 +61,26 @@ vec2 gridpp::window(const vec2& array,
                     end = std::min(nX - 1, x + length / 2);
                 }
 
-                if(start - 1 >= 0) {
-                    if(counts[end] - counts[start-1] != 0) {
-                        output[y][x] = values[end] - values[start - 1];
-                    }
-                }
-                else{
-                    if(counts[end] != 0) {
-                        output[y][x] = values[end];
-                    }
+                double value = values[end];
+                int count = counts[end];
+                if(start > 0) {
+                    value -= values[start - 1];
+                    count -= counts[start - 1];
                 }
+                if(count > 0)
+                    output[y][x] = value;
 
                 if(statistic == gridpp::Count) {
-                    output[y][x] = counts[end] - counts[start - 1];
+                    output[y][x] = count;
                 }
                 else {
                     if(statistic == gridpp::Mean) {
-                        if(counts[end] != 0) {
-                            output[y][x] = output[y][x] / (counts[end] - counts[start-1]);
+                        if(count > 0) {
+                            output[y][x] = value / count;
                         }
                     }
                     if(keep_missing) {
-                        if(counts[end] - counts[start - 1] < (end - (start - 1 ))) {
+                        if(count < end - start + 1) {
                             output[y][x] = gridpp::MV;
                         }
                     }
-- 
2.43.0


From 30c4e9ec919554177a184a4cfdc235875ddd9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 002/124] fix: neighbourhood_quantile_fast shares the current
 quantile level among threads

---
 src/api/neighbourhood.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 4d61131..75a1118 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -362,11 +362,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
@@ -478,11 +477,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
-- 
2.43.0


From 3c5ef27a19cf462338d107b90a9c004b18b57006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 003/124] fix: neighbourhood Std and Variance lose all
 precision when the mean is large

---
 src/api/neighbourhood.cpp | 47 +++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 75a1118..7357bd9 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -209,26 +209,39 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         }
     }
     else if(statistic == gridpp::Std || statistic == gridpp::Variance) {
-        vec2 mean = gridpp::neighbourhood(input, halfwidth, gridpp::Mean);
-        vec2 input2(nY);
-        for(int y = 0; y < nY; y++) {
-            input2[y].resize(input[y].size(), 0);
-            for(int x = 0; x < nX; x++) {
-                input2[y][x] = input[y][x] * input[y][x];
-            }
-        }
-        vec2 mean2 = gridpp::neighbourhood(input2, halfwidth, gridpp::Mean);
-        if(statistic == gridpp::Std) {
-            for(int y = 0; y < nY; y++) {
-                for(int x = 0; x < nX; x++) {
-                    output[y][x] = sqrt(mean2[y][x] - mean[y][x] * mean[y][x]);
+        // Accumulate in double precision and relative to one of the values, since the difference
+        // between the mean square and the squared mean cancels most digits
+        float K = gridpp::MV;
+        dvec2 sum(nY + 1, dvec(nX + 1, 0));
+        dvec2 sum2(nY + 1, dvec(nX + 1, 0));
+        ivec2 counts(nY + 1, ivec(nX + 1, 0));
+        for(int i = 0; i < nY; i++) {
+            for(int j = 0; j < nX; j++) {
+                double value = 0;
+                bool valid = gridpp::is_valid(input[i][j]);
+                if(valid) {
+                    if(!gridpp::is_valid(K))
+                        K = input[i][j];
+                    value = (double) input[i][j] - K;
                 }
+                sum[i+1][j+1] = sum[i][j+1] + sum[i+1][j] - sum[i][j] + value;
+                sum2[i+1][j+1] = sum2[i][j+1] + sum2[i+1][j] - sum2[i][j] + value * value;
+                counts[i+1][j+1] = counts[i][j+1] + counts[i+1][j] - counts[i][j] + valid;
             }
         }
-        else {
-            for(int y = 0; y < nY; y++) {
-                for(int x = 0; x < nX; x++) {
-                    output[y][x] = mean2[y][x] - mean[y][x] * mean[y][x];
+        #pragma omp parallel for
+        for(int i = 0; i < nY; i++) {
+            for(int j = 0; j < nX; j++) {
+                int i0 = std::max(0, i - halfwidth);
+                int j0 = std::max(0, j - halfwidth);
+                int i1 = std::min(nY, i + halfwidth + 1);
+                int j1 = std::min(nX, j + halfwidth + 1);
+                int count = counts[i1][j1] - counts[i0][j1] - counts[i1][j0] + counts[i0][j0];
+                if(count > 0) {
+                    double mean = (sum[i1][j1] - sum[i0][j1] - sum[i1][j0] + sum[i0][j0]) / count;
+                    double mean2 = (sum2[i1][j1] - sum2[i0][j1] - sum2[i1][j0] + sum2[i0][j0]) / count;
+                    double var = std::max(0.0, mean2 - mean * mean);
+                    output[i][j] = statistic == gridpp::Std ? sqrt(var) : var;
                 }
             }
         }
-- 
2.43.0


From 84fa33349821deb30159585db20c5fdcff31058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 004/124] fix: neighbourhood of an ensemble is the statistic of
 cell statistics, not of all values

---
 src/api/neighbourhood.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 7357bd9..cba1918 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -10,18 +10,39 @@ namespace {
     vec3 vec2_to_vec3(const vec2& input);
 }
 vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic statistic) {
-    vec2 flat(input.size());
+    if(halfwidth < 0)
+        throw std::invalid_argument("Half width must be > 0");
+    if(statistic == gridpp::Quantile)
+        throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
+    if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
+        return vec2();
+    if(statistic == gridpp::Mean) {
+        // Cells can have different numbers of valid members
+        vec2 output = gridpp::neighbourhood(input, halfwidth, gridpp::Sum);
+        vec2 counts = gridpp::neighbourhood(input, halfwidth, gridpp::Count);
+        for(int y = 0; y < output.size(); y++) {
+            for(int x = 0; x < output[y].size(); x++) {
+                if(counts[y][x] > 0)
+                    output[y][x] /= counts[y][x];
+            }
+        }
+        return output;
+    }
+    if(statistic != gridpp::Sum && statistic != gridpp::Count && statistic != gridpp::Min && statistic != gridpp::Max) {
+        // Not computable from the statistic of each cell
+        return gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
+    }
     int Y = input.size();
     int X = input[0].size();
-    int E = input[0][0].size();
-    for(int y = 0; y < Y; y++) {
-        flat[y].resize(X, 0);
-    }
+    vec2 flat = gridpp::init_vec2(Y, X);
     for(int y = 0; y < Y; y++) {
         for(int x = 0; x < X; x++) {
             flat[y][x] = gridpp::calc_statistic(input[y][x], statistic);
         }
     }
+    // The number of values in the neighbourhood is the sum of the number in each cell
+    if(statistic == gridpp::Count)
+        statistic = gridpp::Sum;
     vec2 results = neighbourhood(flat, halfwidth, statistic);
     return results;
 }
-- 
2.43.0


From d19b573843d0327f5ae642d02315211307a9f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 005/124] fix: unknown statistics and quantile levels terminate
 the process from inside parallel regions

---
 src/api/gridding.cpp      |  8 ++++++++
 src/api/neighbourhood.cpp | 12 ++++++++++++
 src/api/window.cpp        |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index e7692c1..b87ec3a 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -10,6 +10,8 @@ vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values,
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // An exception cannot leave the parallel region below, so raise it here
+    gridpp::calc_statistic(vec(), statistic);
 
     int Y = grid.size()[0];
     int X = grid.size()[1];
@@ -40,6 +42,8 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // An exception cannot leave the parallel region below, so raise it here
+    gridpp::calc_statistic(vec(), statistic);
 
     int N = opoints.size();
     vec lats = opoints.get_lats();
@@ -65,6 +69,8 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // An exception cannot leave the parallel region below, so raise it here
+    gridpp::calc_statistic(vec(), statistic);
 
     int Y = grid.size()[0];
     int X = grid.size()[1];
@@ -103,6 +109,8 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // An exception cannot leave the parallel region below, so raise it here
+    gridpp::calc_statistic(vec(), statistic);
 
     int N = opoints.size();
     vec lats = ipoints.get_lats();
diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index cba1918..381b1e7 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -603,6 +603,12 @@ namespace {
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
+        // An exception cannot leave the parallel region below, so raise it here
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(), quantile);
+        else
+            gridpp::calc_statistic(vec(), statistic);
+
         #pragma omp parallel for
         for(int y = 0; y < nY; y++) {
             for(int x = 0; x < nX; x++) {
@@ -653,6 +659,12 @@ namespace {
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
         }
+        // An exception cannot leave the parallel region below, so raise it here
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(), quantile);
+        else
+            gridpp::calc_statistic(vec(), statistic);
+
         #pragma omp parallel for
         for(int i = 0; i < nY; i++) {
             for(int j = 0; j < nX; j++) {
diff --git a/src/api/window.cpp b/src/api/window.cpp
index 5505b45..3a5e02f 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -27,6 +27,9 @@ vec2 gridpp::window(const vec2& array,
         throw std::invalid_argument("Length variable must be an odd number");
     }
 
+    // An exception cannot leave the parallel region below, so raise it here
+    gridpp::calc_statistic(vec(), statistic);
+
     #pragma omp parallel for
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
-- 
2.43.0


From 66fc192006ad9fe41a37ad758cd390134e873d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 006/124] fix: gridding to points has every thread compute and
 write every output value

---
 src/api/gridding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index b87ec3a..ddd3631 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -50,7 +50,7 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
     vec lons = opoints.get_lons();
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         ivec I = ipoints.get_neighbours(lats[n], lons[n], radius);
         if(min_num <= 0 || I.size() >= min_num) {
@@ -128,7 +128,7 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
 
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         if(temp[n].size() > 0) {
             if(min_num <= 0 || temp[n].size() >= min_num)
-- 
2.43.0


From 2fca65025bdc5f279f0a7f2c8ed453066435f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 007/124] fix: probability and mask downscaling accept
 mismatched fields and unusable thresholds

---
 src/api/downscale_probability.cpp              | 10 +++++++++-
 src/api/mask_threshold_downscale_consensus.cpp | 17 ++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index fcfdb8e..1a5bce9 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -9,7 +9,15 @@ vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const v
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
+    if(comparison_operator != gridpp::Lt && comparison_operator != gridpp::Leq && comparison_operator != gridpp::Gt && comparison_operator != gridpp::Geq)
+        throw std::invalid_argument("Unknown comparison operator");
+    if(nLat == 0 || iOutputLats[0].size() == 0)
+        return vec2(nLat);
     int nLon = iOutputLats[0].size();
+    if(!gridpp::compatible_size(igrid.get_lats(), ivalues) || igrid.size()[0] == 0 || igrid.size()[1] == 0)
+        throw std::invalid_argument("Input grid is not the same size as values");
+    if(!gridpp::compatible_size(iOutputLats, threshold))
+        throw std::invalid_argument("Output grid is not the same size as threshold");
     int nEns = ivalues[0][0].size();
 
     vec2 output(nLat);
@@ -50,7 +58,7 @@ vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const v
             // std::cout << "count[" << i <<"][" << j << "]:" << count << std::endl;
 
             float prob;
-            if (count == 0) {
+            if (count == 0 || !gridpp::is_valid(threshold[i][j])) {
                 prob = gridpp::MV;
             }
             else {
diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 86e8ca2..30e0d30 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -21,7 +21,22 @@ namespace {
         vec2 iOutputLons = ogrid.get_lons();
 
         int nLat = iOutputLats.size();
+        if(comparison_operator != gridpp::Lt && comparison_operator != gridpp::Leq && comparison_operator != gridpp::Gt && comparison_operator != gridpp::Geq)
+            throw std::invalid_argument("Unknown comparison operator");
+        if(nLat == 0 || iOutputLats[0].size() == 0)
+            return vec2(nLat);
         int nLon = iOutputLats[0].size();
+        if(!gridpp::compatible_size(igrid.get_lats(), ivalues_true) || igrid.size()[0] == 0 || igrid.size()[1] == 0)
+            throw std::invalid_argument("Input grid is not the same size as values");
+        if(!gridpp::compatible_size(ivalues_true, ivalues_false) || !gridpp::compatible_size(ivalues_true, threshold_values))
+            throw std::invalid_argument("Input values are not the same size");
+        if(!gridpp::compatible_size(iOutputLats, threshold))
+            throw std::invalid_argument("Output grid is not the same size as threshold");
+        // An exception cannot leave the parallel region below, so raise it here
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(), quantile);
+        else
+            gridpp::calc_statistic(vec(), statistic);
         int nEns = ivalues_true[0][0].size();
 
         vec2 output(nLat);
@@ -37,7 +52,7 @@ namespace {
                 int count = 0;
                 vec masked_ivalues(nEns, gridpp::MV);
                 for(int k = 0; k < nEns; k++) {
-                    if (gridpp::is_valid(threshold_values[I][J][k] )) {
+                    if (gridpp::is_valid(threshold_values[I][J][k]) && gridpp::is_valid(threshold[i][j])) {
                         if (comparison_operator == gridpp::Leq) {
                             if (threshold_values[I][J][k] <= threshold[i][j]) {
                                 masked_ivalues[k] = ivalues_true[I][J][k];
-- 
2.43.0


From 5a46e061b777833bf63ee4584bbee0bb60114a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 008/124] fix: copies and subsets of points lose the coordinate
 type; projected Point swaps x and y

---
 src/api/point.cpp  | 4 ++--
 src/api/points.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/api/point.cpp b/src/api/point.cpp
index c632690..35bbd0b 100644
--- a/src/api/point.cpp
+++ b/src/api/point.cpp
@@ -16,8 +16,8 @@ gridpp::Point::Point(float lat, float lon, float elev, float laf, CoordinateType
         gridpp::convert_coordinates(lat, lon, type, this->x, this->y, this->z);
     }
     else {
-        this->x = lat;
-        this->y = lon;
+        this->x = lon;
+        this->y = lat;
         this->z = 0;
     }
 }
diff --git a/src/api/points.cpp b/src/api/points.cpp
index 711018a..c15fa1d 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -104,7 +104,7 @@ gridpp::Points gridpp::Points::get_in_domain(const gridpp::Grid& grid) const {
         elevs.push_back(mElevs[indices[s]]);
         lafs.push_back(mLafs[indices[s]]);
     }
-    const gridpp::Points new_points(lats, lons, elevs, lafs);
+    const gridpp::Points new_points(lats, lons, elevs, lafs, get_coordinate_type());
     return new_points;
 }
 gridpp::Points& gridpp::Points::operator=(gridpp::Points other) {
@@ -120,7 +120,7 @@ gridpp::Points::Points(const gridpp::Points& other) {
     mLons = other.mLons;
     mElevs = other.mElevs;
     mLafs = other.mLafs;
-    mTree = KDTree(mLats, mLons, mTree.get_coordinate_type());
+    mTree = other.mTree;
 }
 CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
@@ -146,5 +146,5 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
         elevs[i] = mElevs[index];
         lafs[i] = mLafs[index];
     }
-    return gridpp::Points(lats, lons, elevs, lafs);
+    return gridpp::Points(lats, lons, elevs, lafs, get_coordinate_type());
 }
-- 
2.43.0


From 8a6e10d28e97aab1d3c6fbeaf8d990f6eaa11f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 009/124] fix: the enclosing box of a location in a projected
 grid is rejected as invalid coordinates

---
 src/api/grid.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 58b0185..e267f12 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -194,11 +194,12 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
         else if(X == nX - 1 && xdir == 1)
             continue;
         // std::cout << "Iteration " << it << " " << ydir << " " << xdir << std::endl;
-        Point A(mLats[Y][X], mLons[Y][X]);
-        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X]);
-        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir]);
-        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir]);
-        Point curr(lat, lon);
+        CoordinateType type = get_coordinate_type();
+        Point A(mLats[Y][X], mLons[Y][X], gridpp::MV, gridpp::MV, type);
+        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X], gridpp::MV, gridpp::MV, type);
+        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point curr(lat, lon, gridpp::MV, gridpp::MV, type);
         // std::cout << A.lat << "," << B.lat << "," << C.lat << "," << D.lat << "," << curr.lat << std::endl;
         // std::cout << A.lon << "," << B.lon << "," << C.lon << "," << D.lon << "," << curr.lon << std::endl;
         bool inrectangle = point_in_rectangle(A, B, C, D, curr);
-- 
2.43.0


From 28a79a4a7196de31b8a266eb880ae5d6fa0db507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 010/124] fix: grids and points of inconsistent sizes are
 accepted and read out of bounds; distance of antipodal or equal points can be
 NaN

---
 src/api/grid.cpp   |  8 ++++++++
 src/api/kdtree.cpp |  9 +++++++--
 src/api/points.cpp | 11 ++++++++++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index e267f12..3b7224e 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -17,6 +17,12 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
         mX = 0;
         return;
     }
+    if(lons.size() != lats.size())
+        throw std::invalid_argument("Cannot create grid with unequal lat and lon sizes");
+    for(int i = 0; i < lats.size(); i++) {
+        if(lats[i].size() != lats[0].size() || lons[i].size() != lats[0].size())
+            throw std::invalid_argument("Cannot create grid with rows of unequal sizes");
+    }
     mLats = lats;
     mLons = lons;
     mElevs = elevs;
@@ -231,6 +237,8 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
     return true;
 }
 gridpp::Point gridpp::Grid::get_point(int y_index, int x_index) const {
+    if(y_index < 0 || y_index >= size()[0] || x_index < 0 || x_index >= size()[1])
+        throw std::invalid_argument("Index is outside the grid");
     int index = y_index * mX + x_index;
     return Point(mLats[y_index][x_index], mLons[y_index][x_index], mElevs[y_index][x_index], mLafs[y_index][x_index], get_coordinate_type(), mTree.get_x()[index], mTree.get_y()[index], mTree.get_z()[index]);
 }
diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index fe287f8..74e9c27 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -102,7 +102,11 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     return ret;
 }
 int gridpp::KDTree::get_nearest_neighbour(float lat, float lon, bool include_match) const {
-    return get_closest_neighbours(lat, lon, 1, include_match)[0];
+    ivec I = get_closest_neighbours(lat, lon, 1, include_match);
+    if(I.size() > 0)
+        return I[0];
+    else
+        return -1;
 }
 float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lon2, CoordinateType type) {
     if(type == gridpp::Cartesian) {
@@ -127,7 +131,8 @@ float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lo
         double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                        + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                        + sin(lat1r)*sin(lat2r);
-        double dist = acos(ratio)*radiusEarth;
+        // Rounding can bring the ratio outside the domain of acos
+        double dist = acos(std::max(-1.0, std::min(1.0, ratio)))*radiusEarth;
         return (float) dist;
     }
 }
diff --git a/src/api/points.cpp b/src/api/points.cpp
index c15fa1d..3218fa4 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -30,6 +30,13 @@ gridpp::Points::Points(vec lats, vec lons, vec elevs, vec lafs, CoordinateType t
     }
 }
 gridpp::Points::Points(KDTree tree, vec elevs, vec lafs) {
+    int N = tree.size();
+    if(elevs.size() != 0 && elevs.size() != N)
+        throw std::invalid_argument("'elevs' must either be size 0 or the same size as the tree");
+    if(lafs.size() != 0 && lafs.size() != N)
+        throw std::invalid_argument("'lafs' must either be size 0 or the same size as the tree");
+    elevs.resize(N, gridpp::MV);
+    lafs.resize(N, gridpp::MV);
     mElevs = elevs;
     mLafs = lafs;
     mTree = tree;
@@ -126,6 +133,8 @@ CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
 }
 gridpp::Point gridpp::Points::get_point(int index) const {
+    if(index < 0 || index >= size())
+        throw std::invalid_argument("Index is outside the points");
     return Point(mLats[index], mLons[index], mElevs[index], mLafs[index], get_coordinate_type(), mTree.get_x()[index], mTree.get_y()[index], mTree.get_z()[index]);
 }
 gridpp::Points gridpp::Points::subset(const ivec& indices) const {
@@ -136,7 +145,7 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
     vec lafs(N);
     for(int i = 0; i < N; i++) {
         int index = indices[i];
-        if(index >= mLats.size()) {
+        if(index < 0 || index >= mLats.size()) {
             std::stringstream ss;
             ss << "Index " << index << " exceeds number of points " << mLats.size();
             throw std::invalid_argument(ss.str());
-- 
2.43.0


From 2d66a43e47ccb0a2a5a38cc72d4136991782156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 011/124] fix: downscaling of missized fields, to empty grids
 or across coordinate types reads out of bounds or terminates

---
 src/api/bilinear.cpp | 12 ++++++++++--
 src/api/nearest.cpp  | 24 ++++++++++++++++++++----
 src/api/util.cpp     | 21 ++++++++++++++++++---
 3 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 6dc9202..a2fc05b 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -27,13 +27,15 @@ namespace {
 vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues) {
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
     vec2 iInputLats = igrid.get_lats();
     vec2 iInputLons = igrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -55,6 +57,8 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
 vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
     vec2 iInputLats = igrid.get_lats();
@@ -62,7 +66,7 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -85,6 +89,8 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalues) {
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec iOutputLats = opoints.get_lats();
     vec iOutputLons = opoints.get_lons();
     vec2 iInputLats = igrid.get_lats();
@@ -110,6 +116,8 @@ vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalu
 vec2 gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec iOutputLats = opoints.get_lats();
     vec iOutputLons = opoints.get_lons();
     vec2 iInputLats = igrid.get_lats();
diff --git a/src/api/nearest.cpp b/src/api/nearest.cpp
index 77e1bea..5d15cae 100644
--- a/src/api/nearest.cpp
+++ b/src/api/nearest.cpp
@@ -7,11 +7,13 @@ using namespace gridpp;
 vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues) {
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -32,12 +34,14 @@ vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
 vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 ;
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -73,11 +77,13 @@ vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalues) {
     if(ipoints.size() != ivalues.size())
         throw std::invalid_argument("Points size is not the same as values");
+    if(ipoints.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -98,12 +104,14 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
         ss << "Input points (" << ipoints.size() << ") and values (" << ivalues.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(ipoints.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -124,6 +132,8 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
 vec gridpp::nearest(const Grid& igrid, const Points& opoints, const vec2& ivalues) {
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec iOutputLats = opoints.get_lats();
     vec iOutputLons = opoints.get_lons();
 
@@ -145,6 +155,8 @@ vec gridpp::nearest(const Grid& igrid, const Points& opoints, const vec2& ivalue
 vec2 gridpp::nearest(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec iOutputLats = opoints.get_lats();
     vec iOutputLons = opoints.get_lons();
 
@@ -177,6 +189,8 @@ vec2 gridpp::nearest(const Grid& igrid, const Points& opoints, const vec3& ivalu
 vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& ivalues) {
     if(ipoints.size() != ivalues.size())
         throw std::invalid_argument("Points size is not the same as values");
+    if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec iOutputLats = opoints.get_lats();
     vec iOutputLons = opoints.get_lons();
 
@@ -201,6 +215,8 @@ vec2 gridpp::nearest(const Points& ipoints, const Points& opoints, const vec2& i
         ss << "Input points (" << ipoints.size() << ") and values (" << ivalues[0].size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec iOutputLats = opoints.get_lats();
     vec iOutputLons = opoints.get_lons();
 
diff --git a/src/api/util.cpp b/src/api/util.cpp
index 0ca5020..7801bc1 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -425,13 +425,28 @@ vec gridpp::interpolate(const vec& x, const vec& iX, const vec& iY) {
     return y;
 }
 bool gridpp::compatible_size(const Grid& grid, const vec2& v) {
-    return v.size() == 0 || (grid.size()[0] == v.size() && grid.size()[1] == v[0].size());
+    ivec size = grid.size();
+    if(size[0] != v.size())
+        return false;
+    for(int y = 0; y < v.size(); y++) {
+        if(v[y].size() != size[1])
+            return false;
+    }
+    return true;
 }
 bool gridpp::compatible_size(const Grid& grid, const vec3& v) {
-    return v.size() == 0 || (v[0].size() == 0 || (grid.size()[0] == v[0].size() && grid.size()[1] == v[0][0].size()));
+    for(int t = 0; t < v.size(); t++) {
+        if(!gridpp::compatible_size(grid, v[t]))
+            return false;
+    }
+    return true;
 }
 bool gridpp::compatible_size(const Points& points, const vec2& v) {
-    return v.size() == 0 || points.size() == v[0].size();
+    for(int t = 0; t < v.size(); t++) {
+        if(points.size() != v[t].size())
+            return false;
+    }
+    return true;
 }
 bool gridpp::compatible_size(const Points& points, const vec& v) {
     return points.size() == v.size();
-- 
2.43.0


From 62aa16e0bd6dc07e8c612b466fd9f3d15421609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 012/124] fix: neighbourhood_search takes points far outside
 the criteria range as most suitable

---
 src/api/neighbourhood_search.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index 6d86893..77220b0 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -13,14 +13,17 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
     if(halfwidth < 0) {
         throw std::invalid_argument("halfwidth must be positive");
     }
-    if(search_array.size() != array.size() || search_array[0].size() != array[0].size()) {
+    if(!gridpp::compatible_size(search_array, array)) {
 
         throw std::invalid_argument("search_array must either be the same size as array");
     }
-    if(apply_array.size() > 1 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
+    if(apply_array.size() > 0 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
         throw std::invalid_argument("apply_array must either be empty or same size as array");
     }
 
+    if(array.size() == 0 || array[0].size() == 0)
+        return array;
+
     vec2 output = gridpp::init_vec2(array.size(), array[0].size());
     bool use_apply_array = apply_array.size() > 0;
 
@@ -70,7 +73,7 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
                         else if (counter > 0)
                             /*  We have decided that we will only use values within the search target */
                             continue;
-                        else if(std::abs(search_array[yy][xx] - search_array[y][x]) >= search_delta) {
+                        else if(std::min(std::abs(search_array[yy][xx] - search_target_min), std::abs(search_array[yy][xx] - search_target_max)) <= search_delta) {
                             /* Finding nearest value that's outside of the search target range */
                             if(!gridpp::is_valid(nearest_target)) {
                                 /* Set first value*/
-- 
2.43.0


From d557c9bb2cdf4ceb9462c1911d783a906c5cf8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 013/124] fix: invalid arguments of geometry functions read out
 of bounds or terminate inside parallel regions

---
 src/api/count.cpp    |  8 ++++++++
 src/api/distance.cpp |  8 ++++++++
 src/api/doping.cpp   |  2 ++
 src/api/fill.cpp     |  2 +-
 src/api/gradient.cpp | 30 +++++++++++++++++-------------
 src/api/gridding.cpp | 12 ++++++++++++
 src/api/smart.cpp    |  6 +++++-
 7 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/api/count.cpp b/src/api/count.cpp
index 7a7bd11..cc7a799 100644
--- a/src/api/count.cpp
+++ b/src/api/count.cpp
@@ -4,6 +4,8 @@
 using namespace gridpp;
 
 vec gridpp::count(const Grid& grid, const Points& points, float radius) {
+    if(grid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     int size = points.size();
     vec output(size);
     vec olats = points.get_lats();
@@ -17,6 +19,8 @@ vec gridpp::count(const Grid& grid, const Points& points, float radius) {
 }
 
 vec2 gridpp::count(const Grid& igrid, const Grid& ogrid, float radius) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     ivec size = ogrid.size();
     vec2 output(size[0]);
     vec2 olats = ogrid.get_lats();
@@ -35,6 +39,8 @@ vec2 gridpp::count(const Grid& igrid, const Grid& ogrid, float radius) {
 }
 
 vec2 gridpp::count(const Points& points, const Grid& grid, float radius) {
+    if(points.get_coordinate_type() != grid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     ivec size = grid.size();
     vec2 output(size[0]);
     vec2 olats = grid.get_lats();
@@ -53,6 +59,8 @@ vec2 gridpp::count(const Points& points, const Grid& grid, float radius) {
 }
 
 vec gridpp::count(const Points& ipoints, const Points& opoints, float radius) {
+    if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     int size = opoints.size();
     vec output(size);
     vec olats = opoints.get_lats();
diff --git a/src/api/distance.cpp b/src/api/distance.cpp
index 4a3f9d3..895f072 100644
--- a/src/api/distance.cpp
+++ b/src/api/distance.cpp
@@ -6,6 +6,8 @@ using namespace gridpp;
 vec gridpp::distance(const Grid& grid, const Points& points, int num) {
     if(grid.get_coordinate_type() != points.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num <= 0)
+        throw std::invalid_argument("num must be > 0");
 
     int size = points.size();
     vec output(size);
@@ -33,6 +35,8 @@ vec gridpp::distance(const Grid& grid, const Points& points, int num) {
 vec2 gridpp::distance(const Grid& igrid, const Grid& ogrid, int num) {
     if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num <= 0)
+        throw std::invalid_argument("num must be > 0");
 
     ivec size = ogrid.size();
     vec2 output(size[0]);
@@ -65,6 +69,8 @@ vec2 gridpp::distance(const Grid& igrid, const Grid& ogrid, int num) {
 vec2 gridpp::distance(const Points& points, const Grid& grid, int num) {
     if(points.get_coordinate_type() != grid.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num <= 0)
+        throw std::invalid_argument("num must be > 0");
 
     ivec size = grid.size();
     vec2 output(size[0]);
@@ -96,6 +102,8 @@ vec2 gridpp::distance(const Points& points, const Grid& grid, int num) {
 vec gridpp::distance(const Points& ipoints, const Points& opoints, int num) {
     if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num <= 0)
+        throw std::invalid_argument("num must be > 0");
 
     int size = opoints.size();
     vec output(size);
diff --git a/src/api/doping.cpp b/src/api/doping.cpp
index ef7b4ea..5c04364 100644
--- a/src/api/doping.cpp
+++ b/src/api/doping.cpp
@@ -31,6 +31,8 @@ vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Poin
     bool check_elev = gridpp::is_valid(max_elev_diff);
     for(int i = 0; i < N; i++) {
         ivec index = igrid.get_nearest_neighbour(lats[i], lons[i]);
+        if(index.size() != 2)
+            continue;
         float curr = observations[i];
         for(int yy = std::max(0, index[0] - halfwidth[i]); yy <= std::min(Y - 1, index[0] + halfwidth[i]); yy++) {
             for(int xx = std::max(0, index[1] - halfwidth[i]); xx <= std::min(X - 1, index[1] + halfwidth[i]); xx++) {
diff --git a/src/api/fill.cpp b/src/api/fill.cpp
index 4b9ab1c..ea92552 100644
--- a/src/api/fill.cpp
+++ b/src/api/fill.cpp
@@ -42,7 +42,7 @@ vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, co
 
 vec2 gridpp::fill_missing(const vec2& values) {
     int Y = values.size();
-    int X = values[0].size();
+    int X = Y > 0 ? values[0].size() : 0;
     vec2 results_y(Y);
     vec2 results_x(Y);
     int count_y = 0;
diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index e66c138..efb8b2f 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -7,16 +7,16 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec2& iva
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
 
-    if(ivalues.size() != igrid.size()[0] || ivalues[0].size() != igrid.size()[1])
+    if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Values is the wrong size");
 
     if(laf_gradient.size() > 0)
-        if(laf_gradient.size() != igrid.size()[0] || laf_gradient[0].size() != igrid.size()[1])
+        if(!gridpp::compatible_size(igrid, laf_gradient))
 
             throw std::invalid_argument("Laf gradient is the wrong size");
 
     if(elev_gradient.size() > 0)
-        if(elev_gradient.size() != igrid.size()[0] || elev_gradient[0].size() != igrid.size()[1])
+        if(!gridpp::compatible_size(igrid, elev_gradient))
             throw std::invalid_argument("Elevation gradient is the wrong size");
 
     vec2 oelevs = ogrid.get_elevs();
@@ -100,14 +100,16 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
         fields.push_back(ivalues[t]);
     }
     if(elev_gradient.size() != 0) {
-        assert(gridpp::compatible_size(elev_gradient, ivalues));
+        if(!gridpp::compatible_size(elev_gradient, ivalues))
+            throw std::invalid_argument("Elevation gradient is the wrong size");
         for(int t = 0; t < nTime; t++) {
             fields.push_back(elev_gradient[t]);
         }
         fields.push_back(igrid.get_elevs());
     }
     if(laf_gradient.size() != 0) {
-        assert(gridpp::compatible_size(laf_gradient, ivalues));
+        if(!gridpp::compatible_size(laf_gradient, ivalues))
+            throw std::invalid_argument("Laf gradient is the wrong size");
         for(int t = 0; t < nTime; t++) {
             fields.push_back(laf_gradient[t]);
         }
@@ -183,16 +185,16 @@ vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2&
     vec delev_gradient;
     vec delevs;
     if(elev_gradient.size() != 0) {
-        assert(elev_gradient.size() == ivalues.size());
-        assert(elev_gradient[0].size() == ivalues[0].size());
+        if(!gridpp::compatible_size(elev_gradient, ivalues))
+            throw std::invalid_argument("Elevation gradient is the wrong size");
         delev_gradient = gridpp::downscaling(igrid, opoints, elev_gradient, downscaler);
         delevs = gridpp::downscaling(igrid, opoints, igrid.get_elevs(), downscaler);
     }
     vec dlaf_gradient;
     vec dlafs;
     if(laf_gradient.size() != 0) {
-        assert(laf_gradient.size() == ivalues.size());
-        assert(laf_gradient[0].size() == ivalues[0].size());
+        if(!gridpp::compatible_size(laf_gradient, ivalues))
+            throw std::invalid_argument("Laf gradient is the wrong size");
         dlaf_gradient = gridpp::downscaling(igrid, opoints, laf_gradient, downscaler);
         dlafs = gridpp::downscaling(igrid, opoints, igrid.get_lafs(), downscaler);
     }
@@ -235,12 +237,16 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec3&
     vec2 delev_gradient;
     vec delevs;
     if(elev_gradient.size() != 0) {
+        if(!gridpp::compatible_size(elev_gradient, ivalues))
+            throw std::invalid_argument("Elevation gradient is the wrong size");
         delev_gradient = gridpp::downscaling(igrid, opoints, elev_gradient, downscaler);
         delevs = gridpp::downscaling(igrid, opoints, igrid.get_elevs(), downscaler);
     }
     vec2 dlaf_gradient;
     vec dlafs;
     if(laf_gradient.size() != 0) {
+        if(!gridpp::compatible_size(laf_gradient, ivalues))
+            throw std::invalid_argument("Laf gradient is the wrong size");
         dlaf_gradient = gridpp::downscaling(igrid, opoints, laf_gradient, downscaler);
         dlafs = gridpp::downscaling(igrid, opoints, igrid.get_lafs(), downscaler);
     }
@@ -305,16 +311,14 @@ vec3 gridpp::full_gradient_debug(const Grid& igrid, const Grid& ogrid, const vec
     vec3 output = gridpp::init_vec3(nY, nX, 9);
     vec2 dvalues = gridpp::downscaling(igrid, ogrid, ivalues, downscaler);
     vec2 delev_gradient;
-    vec2 delevs;
+    vec2 delevs = gridpp::downscaling(igrid, ogrid, igrid.get_elevs(), downscaler);
     if(elev_gradient.size() != 0) {
         delev_gradient = gridpp::downscaling(igrid, ogrid, elev_gradient, downscaler);
-        delevs = gridpp::downscaling(igrid, ogrid, igrid.get_elevs(), downscaler);
     }
     vec2 dlaf_gradient;
-    vec2 dlafs;
+    vec2 dlafs = gridpp::downscaling(igrid, ogrid, igrid.get_lafs(), downscaler);
     if(laf_gradient.size() != 0) {
         dlaf_gradient = gridpp::downscaling(igrid, ogrid, laf_gradient, downscaler);
-        dlafs = gridpp::downscaling(igrid, ogrid, igrid.get_lafs(), downscaler);
     }
 
     for(int y = 0; y < nY ; y++){
diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index ddd3631..5089d8a 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -6,6 +6,8 @@ using namespace gridpp;
 vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values, float radius, int min_num, gridpp::Statistic statistic) {
     if(!gridpp::compatible_size(points, values))
         throw std::invalid_argument("Points size is not the same as values");
+    if(grid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::is_valid(radius) || radius < 0)
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
@@ -38,6 +40,8 @@ vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values,
 vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& values, float radius, int min_num, gridpp::Statistic statistic) {
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
+    if(opoints.get_coordinate_type() != ipoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::is_valid(radius) || radius < 0)
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
@@ -67,6 +71,8 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
 vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec& values, int min_num, gridpp::Statistic statistic) {
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
+    if(grid.get_coordinate_type() != ipoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
     // An exception cannot leave the parallel region below, so raise it here
@@ -74,6 +80,8 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
 
     int Y = grid.size()[0];
     int X = grid.size()[1];
+    if(Y == 0 || X == 0)
+        return vec2();
     vec lats = ipoints.get_lats();
     vec lons = ipoints.get_lons();
     vec3 temp(Y);
@@ -107,12 +115,16 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
 vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const vec& values, int min_num, gridpp::Statistic statistic) {
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
+    if(opoints.get_coordinate_type() != ipoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
     // An exception cannot leave the parallel region below, so raise it here
     gridpp::calc_statistic(vec(), statistic);
 
     int N = opoints.size();
+    if(N == 0)
+        return vec();
     vec lats = ipoints.get_lats();
     vec lons = ipoints.get_lons();
     vec2 temp(N);
diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 6f5c0c9..dcdd1f2 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -10,6 +10,10 @@ namespace {
     };
 }
 vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, int num, const gridpp::StructureFunction& structure) {
+    if(!gridpp::compatible_size(igrid, ivalues))
+        throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     vec2 ilats = igrid.get_lats();
     vec2 ilons = igrid.get_lons();
     vec2 ielevs = igrid.get_elevs();
@@ -45,7 +49,7 @@ vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, in
                 rhos.push_back(std::pair<float,int>(rho, s));
             }
             std::sort(rhos.begin(), rhos.end(), ::sort_pair_first<float,int>());
-            assert(rhos[0].first <= rhos[rhos.size()-1].first);
+            assert(rhos.size() == 0 || rhos[0].first <= rhos[rhos.size()-1].first);
             float sum = 0;
             int count = 0;
             for(int s = 0; s < std::min(num, int(indices.size())); s++) {
-- 
2.43.0


From be23c0e0452c45eaa82412e2323b68acfe0ff7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 014/124] fix: bilinear interpolation terminates for distorted
 or degenerate cells and misses one of two solutions

---
 src/api/bilinear.cpp | 45 +++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index a2fc05b..c0282c6 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -14,7 +14,7 @@ namespace {
     float calc(const Grid& grid, const vec2& iInputLats, const vec2& iInputLons, const vec2& ivalues, float lat, float lon);
     vec calc(const Grid& grid, const vec2& iInputLats, const vec2& iInputLons, const vec3& ivalues, float lat, float lon);
     // Bilinear interpolation based on 4 surrounding points with coordinates (x0,y0), (x1,y1), etc
-    // and values v0, v1, etc
+    // and values v0, v1, etc. Missing if the cell's shape is not supported.
     float bilinear(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float v0, float v1, float v2, float v3);
     // Compute s,t when the points form a parallelogram
     bool calcParallelogram(float x, float y, float X1, float X2, float X3, float X4, float Y1, float Y2, float Y3, float Y4, float &t, float &s);
@@ -154,7 +154,8 @@ namespace {
         float B = X31;
         float C = Y21;
         float D = Y31;
-        assert(A * D != B * C);
+        if(A * D == B * C)
+            return false;
         float det = 1 / (A * D - B * C);
         s = det * ((x - X1) * (D) + (y - Y1) * (-B));
         t = det * ((x - X1) * (-C) + (y - Y1) * (A));
@@ -232,8 +233,8 @@ namespace {
             std::cout << std::setprecision(10) << y2 << std::endl;
             std::cout << std::setprecision(10) << y3 << std::endl;
   */
-            assert(is_within_range(alpha));
-            assert(is_within_range(beta));
+            if(!is_within_range(alpha) || !is_within_range(beta))
+                return false;
         }
         else if(2 * c * f - 2 * b * g == 0) {
             // std::cout << "Need to diagnose t" << std::endl;
@@ -243,33 +244,35 @@ namespace {
             float s = alpha;
             float t;
             if(Y3 + Y43 * s - Y1 - Y21 * s == 0) {
-                assert(X3 + X43 * s - X1 - X21 * s != 0);
+                if(X3 + X43 * s - X1 - X21 * s == 0)
+                    return false;
                 t = (x - X1 - X21 * s) / (X3 + X43 * s - X1 - X21 * s);
             }
             else {
                 t = (y - Y1 - Y21 * s) / (Y3 + Y43 * s - Y1 - Y21 * s);
             }
             beta = 1 - t;
-            assert(is_within_range(alpha));
-            assert(is_within_range(beta));
+            if(!is_within_range(alpha) || !is_within_range(beta))
+                return false;
         }
         else if(2 * c * e - 2 * a * g == 0) {
             // std::cout << "Need to diagnose s" << std::endl;
             beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
             if(!is_within_range(beta))
-                beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
+                beta  = (b * e - a * f - d * g + c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
             float t =  1 - beta;
             float s;
             if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-                assert(X2 + X42 * t - X1 - X31 * t != 0);
+                if(X2 + X42 * t - X1 - X31 * t == 0)
+                    return false;
                 s = (x - X1 - X31 * t) / (X2 + X42 * t - X1 - X31 * t);
             }
             else {
                 s = (y - Y1 - Y31 * t) / (Y2 + Y42 * t - Y1 - Y31 * t);
             }
             alpha = s;
-            assert(is_within_range(alpha));
-            assert(is_within_range(beta));
+            if(!is_within_range(alpha) || !is_within_range(beta))
+                return false;
         }
         s = alpha;
         t = 1 - beta;
@@ -301,10 +304,14 @@ namespace {
        // std::cout << rectangularGrid << " " << fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) << " " << fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) << std::endl;
 
        // Compute s and t
+       bool found = false;
        if(verticalParallel && horizontalParallel)
-          calcParallelogram(x, y, X1, X2, X3, X4, Y1, Y2, Y3, Y4, t, s);
+          found = calcParallelogram(x, y, X1, X2, X3, X4, Y1, Y2, Y3, Y4, t, s);
        else
-          calcGeneral(x, y, x0, x1, x2, x3, y0, y1, y2, y3, t, s);
+          found = calcGeneral(x, y, x0, x1, x2, x3, y0, y1, y2, y3, t, s);
+       // Grid is rotated/distorted in a way that is not supported
+       if(!found)
+          return gridpp::MV;
 
        if(t >= 1 && t <= 1.15)
           t = 1;
@@ -314,12 +321,8 @@ namespace {
           s = 1;
        if(s <= 0 && s >= -0.15)
           s = 0;
-       if(!(s >= 0 && s <= 1 && t >= 0 && t <= 1)) {
-          std::stringstream ss;
-          ss << "Problem with bilinear interpolation. Grid is rotated/distorted in a way that is not supported. s=" << s << " and t=" << t << " are outside [-0.05,1.05].";
-          throw std::runtime_error(ss.str());
-       }
-       assert(s >= 0 && s <= 1 && t >= 0 && t <= 1);
+       if(!(s >= 0 && s <= 1 && t >= 0 && t <= 1))
+          return gridpp::MV;
        float value = P1 * (1 - s) * ( 1 - t) + P2 * s * (1 - t) + P3 * (1 - s) * t + P4 * s * t;
 
        return value;
@@ -352,7 +355,7 @@ namespace {
                 float value = ::bilinear(lon, lat, x0, x1, x2, x3, y0, y1, y2, y3, v0, v1, v2, v3);
                 output = value;
             }
-            else {
+            if(!gridpp::is_valid(output)) {
                 ivec nn = grid.get_nearest_neighbour(lat, lon);
                 output = ivalues[nn[0]][nn[1]];
             }
@@ -393,7 +396,7 @@ namespace {
                     float value = ::bilinear(lon, lat, x0, x1, x2, x3, y0, y1, y2, y3, v0, v1, v2, v3);
                     output[t] = value;
                 }
-                else {
+                if(!gridpp::is_valid(output[t])) {
                     ivec nn = grid.get_nearest_neighbour(lat, lon);
                     output[t] = ivalues[t][nn[0]][nn[1]];
                 }
-- 
2.43.0


From 6549c4e100fbd6cb222fbfaa5798f84df444cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 015/124] fix: bilinear interpolation ignores the shape of
 small cells

---
 src/api/bilinear.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index c0282c6..38b293a 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -297,9 +297,11 @@ namespace {
 
        float s = gridpp::MV, t = gridpp::MV;
        bool rectangularGrid = (X1 == X3 && X2 == X4 && Y1 == Y2 && Y3 == Y4);
-       // TODO: Why are the tolerances so high?
-       bool verticalParallel = fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) <= 1e-4;
-       bool horizontalParallel = fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) <= 1e-4;
+       // The tolerance is relative to the size of the cell
+       float area = sqrt((X3 - X1)*(X3 - X1) + (Y3 - Y1)*(Y3 - Y1)) * sqrt((X2 - X1)*(X2 - X1) + (Y2 - Y1)*(Y2 - Y1));
+       float tol = 1e-4 * area;
+       bool verticalParallel = fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) <= tol;
+       bool horizontalParallel = fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) <= tol;
 
        // std::cout << rectangularGrid << " " << fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) << " " << fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) << std::endl;
 
-- 
2.43.0


From 8c0a6dda583a50eb82dd02aefa4f961d82675d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 016/124] fix: correlations depend on the absolute elevation
 and land fraction difference

The Cressman, SOAR and TOAR functions were given signed differences: a location
below (or with less land than) the first one got correlations above 1 (SOAR,
TOAR) or was never cut off at the length scale (Cressman).
---
 src/api/structure.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index 6d05272..a3abd90 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -38,7 +38,7 @@ float gridpp::StructureFunction::cressman_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
-    if(dist >= length)
+    if(fabs(dist) >= length)
         return 0;
     return (length * length - dist * dist) / (length * length + dist * dist);
 }
@@ -49,7 +49,7 @@ float gridpp::StructureFunction::soar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
-    float v = dist / length;
+    float v = fabs(dist) / length;
     return (1 + v) * exp(-v);
 }
 /* third order autoregressive function */
@@ -59,7 +59,7 @@ float gridpp::StructureFunction::toar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
-    float v = dist / length;
+    float v = fabs(dist) / length;
     return (1 + v + (v * v) / 3) * exp(-v);
 }
 /* powerlaw function */
-- 
2.43.0


From b0dda045f42e18266fbc946f8459357c87f64ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 017/124] fix: structure functions truncate at hmax and min_rho

The localization distance was derived from hmax (or min_rho) through formulas
that only hold for correlations near 0: with a small hmax the SOAR and TOAR
distance was wrong or negative, so that even a location with itself got
correlation 0, and with h=0 it was NaN.
---
 include/gridpp.h      |  6 ++++
 src/api/structure.cpp | 82 ++++++++++++++++++++++++++++---------------
 2 files changed, 59 insertions(+), 29 deletions(-)

diff --git a/include/gridpp.h b/include/gridpp.h
index eccd691..18ed6f1 100644
--- a/include/gridpp.h
+++ b/include/gridpp.h
@@ -2182,6 +2182,7 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_hmax;
             bool m_is_spatial;
     };
     /** SOAR structure function based on distance, elevation, and land area fraction */
@@ -2214,6 +2215,8 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_hmax;
+            float m_max_ratio;
             bool m_is_spatial;
     };
     /** TOAR structure function based on distance, elevation, and land area fraction */
@@ -2246,6 +2249,8 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_hmax;
+            float m_max_ratio;
             bool m_is_spatial;
     };
     /** Powerlaw structure function based on distance, elevation, and land area fraction */
@@ -2278,6 +2283,7 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_hmax;
             bool m_is_spatial;
     };
     /** Linear structure function based on distance, elevation, and land area fraction */
diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index a3abd90..a70fda9 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -2,6 +2,29 @@
 
 using namespace gridpp;
 
+namespace {
+    // Correlation for a distance of v length scales
+    double soar_rho_1(double v) { return (1 + v) * exp(-v); }
+    double toar_rho_1(double v) { return (1 + v + v * v / 3) * exp(-v); }
+    // Number of length scales at which the decreasing function rho reaches min_rho
+    float get_ratio(double (*rho)(double), float min_rho) {
+        if(!gridpp::is_valid(min_rho) || min_rho <= 0)
+            return std::numeric_limits<float>::infinity();
+        double lower = 0;
+        double upper = 1;
+        while(rho(upper) > min_rho)
+            upper *= 2;
+        for(int i = 0; i < 60; i++) {
+            double middle = (lower + upper) / 2;
+            if(rho(middle) > min_rho)
+                lower = middle;
+            else
+                upper = middle;
+        }
+        return lower;
+    }
+}
+
 const float gridpp::StructureFunction::default_min_rho = 0.0013;
 
 gridpp::StructureFunction::StructureFunction(float localization_distance) {
@@ -151,10 +174,8 @@ gridpp::BarnesStructure::BarnesStructure(float h, float v, float w, float hmax)
     if(!gridpp::is_valid(w) || w < 0)
         throw std::invalid_argument("w must be >= 0");
 
-    if(gridpp::is_valid(hmax))
-        m_min_rho = exp(pow(hmax / h, 2)/-2);
-    else
-        m_min_rho = default_min_rho;
+    m_hmax = hmax;
+    m_min_rho = default_min_rho;
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -168,6 +189,7 @@ gridpp::BarnesStructure::BarnesStructure(float h, float v, float w, float hmax)
 gridpp::BarnesStructure::BarnesStructure(Grid grid, vec2 h, vec2 v, vec2 w, float min_rho) :
         m_grid(grid),
         m_min_rho(min_rho),
+        m_hmax(gridpp::MV),
         mH(h),
         mV(v),
         mW(w) {
@@ -266,7 +288,7 @@ vec gridpp::BarnesStructure::corr(const Point& p1, const std::vector<Point>& p2)
     return output;
 }
 gridpp::StructureFunctionPtr gridpp::BarnesStructure::clone() const {
-    return std::make_shared<gridpp::BarnesStructure>(m_grid, mH, mV, mW, m_min_rho);
+    return std::make_shared<gridpp::BarnesStructure>(*this);
 }
 float gridpp::BarnesStructure::localization_distance(const Point& p) const {
     if(m_is_spatial) {
@@ -278,6 +300,8 @@ float gridpp::BarnesStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::BarnesStructure::localization_distance(float h) const {
+    if(gridpp::is_valid(m_hmax))
+        return m_hmax;
     return sqrt(-2*log(m_min_rho)) * h;
 }
 
@@ -325,10 +349,9 @@ gridpp::SoarStructure::SoarStructure(float h, float v, float w, float hmax) :
     if(!gridpp::is_valid(w) || w < 0)
         throw std::invalid_argument("w must be >= 0");
 
-    if(gridpp::is_valid(hmax))
-        m_min_rho = (1 + hmax / h) * exp(-hmax / h);
-    else
-        m_min_rho = default_min_rho;
+    m_hmax = hmax;
+    m_min_rho = default_min_rho;
+    m_max_ratio = ::get_ratio(soar_rho_1, m_min_rho);
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -342,6 +365,8 @@ gridpp::SoarStructure::SoarStructure(float h, float v, float w, float hmax) :
 gridpp::SoarStructure::SoarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float min_rho) :
         m_grid(grid),
         m_min_rho(min_rho),
+        m_hmax(gridpp::MV),
+        m_max_ratio(::get_ratio(soar_rho_1, min_rho)),
         mH(h),
         mV(v),
         mW(w) {
@@ -440,7 +465,7 @@ vec gridpp::SoarStructure::corr(const Point& p1, const std::vector<Point>& p2) c
     return output;
 }
 gridpp::StructureFunctionPtr gridpp::SoarStructure::clone() const {
-    return std::make_shared<gridpp::SoarStructure>(m_grid, mH, mV, mW, m_min_rho);
+    return std::make_shared<gridpp::SoarStructure>(*this);
 }
 float gridpp::SoarStructure::localization_distance(const Point& p) const {
     if(m_is_spatial) {
@@ -452,10 +477,9 @@ float gridpp::SoarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::SoarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 8.53
-    float log_min_rho = log(m_min_rho);
-    return ( -log_min_rho + log( -log_min_rho)) * h;
+    if(gridpp::is_valid(m_hmax))
+        return m_hmax;
+    return m_max_ratio * h;
 }
 //-----------------------------------------------------------------------------
 /** End SOAR */
@@ -475,10 +499,9 @@ gridpp::ToarStructure::ToarStructure(float h, float v, float w, float hmax) :
     if(!gridpp::is_valid(w) || w < 0)
         throw std::invalid_argument("w must be >= 0");
 
-    if(gridpp::is_valid(hmax))
-        m_min_rho = (1 + hmax / h + pow(hmax / h, 2)/3) * exp(-hmax / h);
-    else
-        m_min_rho = default_min_rho;
+    m_hmax = hmax;
+    m_min_rho = default_min_rho;
+    m_max_ratio = ::get_ratio(toar_rho_1, m_min_rho);
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -492,6 +515,8 @@ gridpp::ToarStructure::ToarStructure(float h, float v, float w, float hmax) :
 gridpp::ToarStructure::ToarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float min_rho) :
         m_grid(grid),
         m_min_rho(min_rho),
+        m_hmax(gridpp::MV),
+        m_max_ratio(::get_ratio(toar_rho_1, min_rho)),
         mH(h),
         mV(v),
         mW(w) {
@@ -590,7 +615,7 @@ vec gridpp::ToarStructure::corr(const Point& p1, const std::vector<Point>& p2) c
     return output;
 }
 gridpp::StructureFunctionPtr gridpp::ToarStructure::clone() const {
-    return std::make_shared<gridpp::ToarStructure>(m_grid, mH, mV, mW, m_min_rho);
+    return std::make_shared<gridpp::ToarStructure>(*this);
 }
 float gridpp::ToarStructure::localization_distance(const Point& p) const {
     if(m_is_spatial) {
@@ -602,11 +627,9 @@ float gridpp::ToarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::ToarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x+1/3*x^2)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 9.487
-    float log_min_rho = log(m_min_rho);
-    float log_log_min_rho = log( -log(m_min_rho));
-    return ( -log_min_rho + log_log_min_rho + 0.5 * log_log_min_rho ) * h;
+    if(gridpp::is_valid(m_hmax))
+        return m_hmax;
+    return m_max_ratio * h;
 }
 //-----------------------------------------------------------------------------
 /** End TOAR */
@@ -626,10 +649,8 @@ gridpp::PowerlawStructure::PowerlawStructure(float h, float v, float w, float hm
     if(!gridpp::is_valid(w) || w < 0)
         throw std::invalid_argument("w must be >= 0");
 
-    if(gridpp::is_valid(hmax))
-        m_min_rho = 1 / (1 + 0.5 * pow(hmax / h, 2));
-    else
-        m_min_rho = default_min_rho;
+    m_hmax = hmax;
+    m_min_rho = default_min_rho;
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -643,6 +664,7 @@ gridpp::PowerlawStructure::PowerlawStructure(float h, float v, float w, float hm
 gridpp::PowerlawStructure::PowerlawStructure(Grid grid, vec2 h, vec2 v, vec2 w, float min_rho) :
         m_grid(grid),
         m_min_rho(min_rho),
+        m_hmax(gridpp::MV),
         mH(h),
         mV(v),
         mW(w) {
@@ -741,7 +763,7 @@ vec gridpp::PowerlawStructure::corr(const Point& p1, const std::vector<Point>& p
     return output;
 }
 gridpp::StructureFunctionPtr gridpp::PowerlawStructure::clone() const {
-    return std::make_shared<gridpp::PowerlawStructure>(m_grid, mH, mV, mW, m_min_rho);
+    return std::make_shared<gridpp::PowerlawStructure>(*this);
 }
 float gridpp::PowerlawStructure::localization_distance(const Point& p) const {
     if(m_is_spatial) {
@@ -753,6 +775,8 @@ float gridpp::PowerlawStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::PowerlawStructure::localization_distance(float h) const {
+    if(gridpp::is_valid(m_hmax))
+        return m_hmax;
     return sqrt( 2 * (1-m_min_rho) / m_min_rho) * h;
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From d07c1c600ae3ead343f0c98e527ebe68561a95d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 018/124] fix: check the size of every row of the scale fields
 of structure functions

---
 src/api/structure.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index a70fda9..02b0e4c 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -198,9 +198,7 @@ gridpp::BarnesStructure::BarnesStructure(Grid grid, vec2 h, vec2 v, vec2 w, floa
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(h.size() == 0 || !gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
@@ -375,9 +373,7 @@ gridpp::SoarStructure::SoarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(h.size() == 0 || !gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
@@ -525,9 +521,7 @@ gridpp::ToarStructure::ToarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(h.size() == 0 || !gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
@@ -673,9 +667,7 @@ gridpp::PowerlawStructure::PowerlawStructure(Grid grid, vec2 h, vec2 v, vec2 w,
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(h.size() == 0 || !gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
@@ -822,9 +814,7 @@ gridpp::LinearStructure::LinearStructure(Grid grid, vec2 h, vec2 v, vec2 w, floa
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(h.size() == 0 || !gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
     }
 }
-- 
2.43.0


From 7856108caab3cb437bb1d5e76e892fe5469b9dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 019/124] fix: filling, doping and masked downscaling mix
 geographic and projected coordinates

---
 src/api/doping.cpp                             | 4 ++++
 src/api/downscale_probability.cpp              | 2 ++
 src/api/fill.cpp                               | 2 ++
 src/api/mask_threshold_downscale_consensus.cpp | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/src/api/doping.cpp b/src/api/doping.cpp
index 5c04364..7134a2b 100644
--- a/src/api/doping.cpp
+++ b/src/api/doping.cpp
@@ -5,6 +5,8 @@ using namespace gridpp;
 vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Points& points, const vec& observations, const ivec& halfwidth, float max_elev_diff) {
     if(!gridpp::compatible_size(igrid, background))
         throw std::invalid_argument("Grid size is not the same as observations");
+    if(igrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(points.size() != observations.size())
         throw std::invalid_argument("Points size is not the same as observations size");
     if(points.size() != halfwidth.size())
@@ -52,6 +54,8 @@ vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Poin
 vec2 gridpp::doping_circle(const Grid& igrid, const vec2& background, const Points& points, const vec& observations, const vec& radii, float max_elev_diff) {
     if(!gridpp::compatible_size(igrid, background))
         throw std::invalid_argument("Grid size is not the same as observations");
+    if(igrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(points.size() != observations.size())
         throw std::invalid_argument("Points size is not the same as observations size");
     if(points.size() != radii.size())
diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index 1a5bce9..1d5226c 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -18,6 +18,8 @@ vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const v
         throw std::invalid_argument("Input grid is not the same size as values");
     if(!gridpp::compatible_size(iOutputLats, threshold))
         throw std::invalid_argument("Output grid is not the same size as threshold");
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     int nEns = ivalues[0][0].size();
 
     vec2 output(nLat);
diff --git a/src/api/fill.cpp b/src/api/fill.cpp
index ea92552..1be529f 100644
--- a/src/api/fill.cpp
+++ b/src/api/fill.cpp
@@ -6,6 +6,8 @@ using namespace gridpp;
 vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, const vec& radii, float value, bool outside) {
     if(!gridpp::compatible_size(igrid, input))
         throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(points.size() != radii.size())
         throw std::invalid_argument("Points size is not the same as radii size");
     for(int i = 0; i < radii.size(); i++) {
diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 30e0d30..dac0df7 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -32,6 +32,8 @@ namespace {
             throw std::invalid_argument("Input values are not the same size");
         if(!gridpp::compatible_size(iOutputLats, threshold))
             throw std::invalid_argument("Output grid is not the same size as threshold");
+        if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+            throw std::invalid_argument("Incompatible coordinate types");
         // An exception cannot leave the parallel region below, so raise it here
         if(statistic == gridpp::Quantile)
             gridpp::calc_quantile(vec(), quantile);
-- 
2.43.0


From fe9b217ef67e7c4aeb7d5ada6a5c6253a8ca59dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 020/124] fix: curves with unknown policies, empty or
 mismatched cells or only missing nodes terminate the process

---
 src/api/curve.cpp | 26 +++++++++++++++++++++++++-
 src/api/util.cpp  |  9 ++++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 1f0ba26..bac2b15 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -3,6 +3,17 @@
 
 using namespace gridpp;
 
+namespace {
+    // Exceptions cannot leave a parallel region, so the policies must be checked beforehand
+    void check_policies(gridpp::Extrapolation policy_below, gridpp::Extrapolation policy_above) {
+        const gridpp::Extrapolation policies[2] = {policy_below, policy_above};
+        for(int i = 0; i < 2; i++) {
+            if(policies[i] != gridpp::OneToOne && policies[i] != gridpp::MeanSlope && policies[i] != gridpp::NearestSlope && policies[i] != gridpp::Zero && policies[i] != gridpp::Unchanged)
+                throw std::invalid_argument("Unknown extrapolation policy");
+        }
+    }
+}
+
 float gridpp::apply_curve(float input, const vec& curve_ref, const vec& curve_fcst, gridpp::Extrapolation policy_below, gridpp::Extrapolation policy_above) {
     if(curve_ref.size() != curve_fcst.size())
         throw std::invalid_argument("curve_ref and curve_fcst must be the same size");
@@ -81,6 +92,7 @@ vec gridpp::apply_curve(const vec& fcst, const vec& curve_ref, const vec& curve_
         throw std::invalid_argument("curve_ref and curve_fcst must be the same size");
     if(curve_ref.size() == 0 || curve_ref.size() == 0)
         throw std::invalid_argument("curve_ref and curve_fcst cannot have size 0");
+    check_policies(policy_below, policy_above);
 
     int N = fcst.size();
     vec output(N, gridpp::MV);
@@ -114,9 +126,16 @@ vec2 gridpp::apply_curve(const vec2& fcst, const vec3& curve_ref, const vec3& cu
         throw std::invalid_argument("Fcst and curve_ref dimension sizes mismatch");
     if(!gridpp::compatible_size(fcst, curve_fcst))
         throw std::invalid_argument("Fcst and curve_fcst dimension sizes mismatch");
+    check_policies(policy_below, policy_above);
 
     int nY = fcst.size();
-    int nX = fcst[0].size();
+    int nX = nY > 0 ? fcst[0].size() : 0;
+    for(int y = 0; y < nY; y++) {
+        for(int x = 0; x < nX; x++) {
+            if(curve_ref[y][x].size() != curve_fcst[y][x].size() || curve_ref[y][x].size() == 0)
+                throw std::invalid_argument("curve_ref and curve_fcst must be the same size and cannot have size 0");
+        }
+    }
     vec2 output(nY);
     for(int y = 0; y < nY; y++) {
         output[y].resize(nX, gridpp::MV);
@@ -160,6 +179,11 @@ vec gridpp::monotonize_curve(vec curve_ref, vec curve_fcst, vec& output_fcst) {
         }
     }
     N = curve_ref.size();
+    if(N == 0) {
+        // No valid points on the curve
+        output_fcst.clear();
+        return vec();
+    }
     ivec new_indices;
     new_indices.reserve(N);
 
diff --git a/src/api/util.cpp b/src/api/util.cpp
index 7801bc1..3e5658d 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -467,11 +467,10 @@ bool gridpp::compatible_size(const vec2& a, const vec3& b) {
     if(a.size() != b.size())
         return false;
 
-    // No x
-    if(a[0].size() == 0 && b[0].size() == 0)
-        return true;
-    if(a[0].size() != b[0].size())
-        return false;
+    for(int y = 0; y < a.size(); y++) {
+        if(a[y].size() != b[y].size())
+            return false;
+    }
     return true;
 }
 bool gridpp::compatible_size(const vec3& a, const vec3& b) {
-- 
2.43.0


From 7118383c9dc621d43cdfc599a5c073cbb5b496a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 021/124] fix: quantile levels of a quantile mapping curve are
 taken from the unsorted values

---
 src/api/quantile_mapping.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/quantile_mapping.cpp b/src/api/quantile_mapping.cpp
index a47b863..96240d0 100644
--- a/src/api/quantile_mapping.cpp
+++ b/src/api/quantile_mapping.cpp
@@ -38,8 +38,8 @@ vec gridpp::quantile_mapping_curve(const vec& ref, const vec& fcst, vec& output_
         vec output_ref(N);
         for(int i = 0; i < N; i++) {
             int index = quantiles[i] * (S - 1);
-            output_fcst[i] = fcst[index];
-            output_ref[i] = ref[index];
+            output_fcst[i] = fcst_sort[index];
+            output_ref[i] = ref_sort[index];
         }
         return output_ref;
     }
-- 
2.43.0


From f00491824a1f0d63605aedbc9a2610d4fe4bc777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 022/124] fix: scores count missing forecasts as below the
 threshold, do not check sizes, and search for ever without valid forecasts

---
 src/api/metric_optimizer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 79babd5..f813eb6 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -33,6 +33,8 @@ namespace {
                 min = gridpp::MV;
                 max = gridpp::MV;
                 for(int i = 0; i < N; i++) {
+                    if(!gridpp::is_valid(fcst[i]))
+                        continue;
                     if(!gridpp::is_valid(min) || fcst[i] < min) {
                         min = fcst[i];
                     }
@@ -130,6 +132,8 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     /*  For large vectors, the expense comes at 1) finding the starting point and 2) finding the
      *  optimal point.
      */
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
     bool remove_near_zero = true;
     bool remove_uncertain = false;
     bool remove_at_boundary = true;
@@ -137,13 +141,15 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     int bits = 32;
     Data data(ref, fcst, threshold, metric);
     Score_func func(data);
+    float min_value = func(data.min);
+    if(!gridpp::is_valid(data.min))
+        return gridpp::MV; // No valid forecasts
 
     /* Compute values at even intervals, to find where to start optimization search */
     int B = 10;
     vec bins(B);
     vec values(B);
     int min_index = 0;
-    float min_value = func(data.min);
     bins[0] = data.min;
     for(int b = 1; b < B; b++) {
         bins[b] = data.min + (data.max - data.min) / (B - 1) * b;
@@ -187,8 +193,12 @@ float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, gridp
 }
 float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, float fthreshold, gridpp::Metric metric) {
     float a = 0, b = 0, c = 0, d = 0;
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
     int N = fcst.size();
     for(int t = 0; t < N; t++) {
+        if(!gridpp::is_valid(ref[t]) || !gridpp::is_valid(fcst[t]))
+            continue;
         if(fcst[t] > fthreshold) {
             if(ref[t] > threshold)
                 a++;
-- 
2.43.0


From cca91e5ccc013e96138c02239f1a2fd471eace2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 023/124] fix: the optimal threshold can be worse than
 thresholds tried, and is removed where the score on the boundary has the
 opposite sign

---
 src/api/metric_optimizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index f813eb6..6094281 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -166,6 +166,11 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     // std::cout << "MIN: " << data.min << " " << "MAX: " << data.max << std::endl;
     // std::cout << "MIN: " << bins[left_index] << " " << "MAX: " << bins[right_index] << std::endl;
     std::pair<double, double> r = brent_find_minima<Score_func, double>(func, bins[left_index], bins[right_index], bits);
+    // The search can miss the best of the starting points, since the score is a step function
+    if(min_value < r.second) {
+        r.first = bins[min_index];
+        r.second = min_value;
+    }
     float x = r.first;
     float score = - r.second;
     if(!gridpp::is_valid(score))
@@ -183,7 +188,7 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     if(remove_at_boundary) {
         float s0 = - func(data.min);
         float s1 = - func(data.max);
-        if (fabs(r.second - s0) < 0.001 || fabs(r.second - s1) < 0.001)
+        if (fabs(score - s0) < 0.001 || fabs(score - s1) < 0.001)
             x = gridpp::MV;
     }
     return x;
-- 
2.43.0


From 0edac6e1120945f5701ee1a9f18f1c6076cd2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 024/124] fix: neighbourhood_score terminates on unknown
 metrics and reads beyond empty fields

---
 src/api/neighbourhood_score.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/neighbourhood_score.cpp b/src/api/neighbourhood_score.cpp
index 652ab5d..30adb2d 100644
--- a/src/api/neighbourhood_score.cpp
+++ b/src/api/neighbourhood_score.cpp
@@ -14,7 +14,9 @@ vec2 gridpp::neighbourhood_score(const Grid& grid, const Points& points, const v
     }
 
     int nY = fcst.size();
-    int nX = fcst[0].size();
+    int nX = nY > 0 ? fcst[0].size() : 0;
+    // Exceptions for unknown metrics cannot leave a parallel region
+    gridpp::calc_score(1, 1, 1, 1, metric);
 
     vec2 a = gridpp::init_vec2(nY, nX, 0);
     vec2 b = gridpp::init_vec2(nY, nX, 0);
-- 
2.43.0


From 56a0706cab3d3b180ef5cb8ae943be8eaf2f5871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 025/124] fix: Gamma loses the upper tail in single precision;
 BoxCox with a negative parameter is not inverted

---
 src/api/transform.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/transform.cpp b/src/api/transform.cpp
index d455d2e..31cbce7 100644
--- a/src/api/transform.cpp
+++ b/src/api/transform.cpp
@@ -114,7 +114,7 @@ float gridpp::BoxCox::backward(float value) const {
    if(mThreshold == 0)
       rValue = exp(value);
    else {
-      if(value < -1.0 / mThreshold) {
+      if(mThreshold * value < -1) {
          value = -1.0 / mThreshold;
       }
       rValue = pow(1 + mThreshold * value, 1 / mThreshold);
@@ -166,14 +166,14 @@ gridpp::Gamma::Gamma(float shape, float scale, float tolerance) : m_gamma_dist(1
 float gridpp::Gamma::forward(float value) const {
     if(!gridpp::is_valid(value))
         return gridpp::MV;
-    float cdf = boost::math::cdf(m_gamma_dist, value + m_tolerance);
+    double cdf = boost::math::cdf(m_gamma_dist, value + m_tolerance);
     float result = boost::math::quantile(m_norm_dist, cdf);
     return result;
 }
 float gridpp::Gamma::backward(float value) const {
     if(!gridpp::is_valid(value))
         return gridpp::MV;
-   float cdf = boost::math::cdf(m_norm_dist, value);
+   double cdf = boost::math::cdf(m_norm_dist, value);
    float result = boost::math::quantile(m_gamma_dist, cdf) - m_tolerance;
    return result;
 }
-- 
2.43.0


From 11b725d32eee151056062368324ffaf074b5eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 026/124] fix: gamma_inv checks sizes and handles level 1

---
 src/api/distribution.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index 4c3ce93..9f6d205 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -4,6 +4,8 @@ using namespace gridpp;
 
 vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     int N = shape.size();
+    if(levels.size() != N || scale.size() != N)
+        throw std::invalid_argument("levels, shape, and scale must be of the same size");
     for(int i = 0; i < N; i++) {
         if(levels[i] < 0 || levels[i] > 1 || !gridpp::is_valid(levels[i])) {
             std::stringstream ss;
@@ -25,6 +27,11 @@ vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
 
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
+        if(levels[i] == 1) {
+            // The distribution has no upper bound
+            results[i] = std::numeric_limits<float>::infinity();
+            continue;
+        }
         boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
         float value = boost::math::quantile(m_gamma_dist, levels[i]);
         results[i] = value;
-- 
2.43.0


From 0f6ccef764cc66fd76cf905841aafc0b80cffbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 027/124] fix: the dew point without humidity is the
 temperature

---
 src/api/humidity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/humidity.cpp b/src/api/humidity.cpp
index 1857565..f8f7c69 100644
--- a/src/api/humidity.cpp
+++ b/src/api/humidity.cpp
@@ -3,6 +3,9 @@
 using namespace gridpp;
 
 float gridpp::dewpoint(float temperature, float relative_humidity) {
+    // Without any humidity there is no dew point
+    if(relative_humidity <= 0)
+        return gridpp::MV;
     if(gridpp::is_valid(temperature) && gridpp::is_valid(relative_humidity)) {
         // Taken from https://github.com/metno/wdb2ts
         float tempC = temperature - 273.15;
-- 
2.43.0


From fe5e9013c08a3893c7730e8bd2a3b49cd9b24d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 028/124] fix: vectors of sea level pressure with unusable
 values terminate the process

---
 src/api/pressure.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index a48e1d8..cac652f 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -25,10 +25,8 @@ vec gridpp::pressure(const vec& ielev, const vec& oelev, const vec& ipressure, c
     return values;
 }
 
-float gridpp::sea_level_pressure(float ps, float altitude, float temperature, float rh, float dewpoint) {
-    // For altitude it is assumed geopotential meters is close to meters.
-    // Following https://library.wmo.int/doc_num.php?explnum_id=10616
-
+namespace {
+    void check_slp_arguments(float ps, float altitude, float temperature, float rh, float dewpoint) {
     if ( !gridpp::is_valid(altitude) ) {
         throw std::runtime_error("sea_level_pressure: altitude is NAN");
     } else if ( !gridpp::is_valid(temperature) ){
@@ -36,8 +34,14 @@ float gridpp::sea_level_pressure(float ps, float altitude, float temperature, fl
     } else if ( ps < 0. || temperature < 0. || rh < 0. || rh > 1. || dewpoint < 0. ){
         throw std::runtime_error("sea_level_pressure: unphysical values in input");
     }
-    
-    
+    }
+}
+
+float gridpp::sea_level_pressure(float ps, float altitude, float temperature, float rh, float dewpoint) {
+    // For altitude it is assumed geopotential meters is close to meters.
+    // Following https://library.wmo.int/doc_num.php?explnum_id=10616
+
+    check_slp_arguments(ps, altitude, temperature, rh, dewpoint);
 
     float T = temperature - 273.15;
     float Ts = 273.15 + T;
@@ -83,6 +87,9 @@ vec gridpp::sea_level_pressure(const vec& ps, const vec& altitude, const vec&  t
     int N = ps.size();
     if(altitude.size() != N || temperature.size() != N || rh.size() != N || dewpoint.size() != N)
         throw std::invalid_argument("slp: Input arguments must be of the same size");
+    // Exceptions cannot leave a parallel region, so check all arguments beforehand
+    for(int i = 0; i < N; i++)
+        check_slp_arguments(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
 
     vec values(N);
     #pragma omp parallel for
-- 
2.43.0


From 16b75cb4db41fd736ef49249c65ff4e03b5c4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 029/124] fix: local_distribution_correction depends on the
 order of observations and reads beyond its inputs

---
 src/api/local_distribution_correction.cpp | 46 +++++++++++++++--------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index d0fabf1..551f7dd 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -8,13 +8,6 @@
 
 using namespace gridpp;
 
-namespace {
-    template<class T1, class T2> struct sort_pair_first {
-        bool operator()(const std::pair<T1,T2>&left, const std::pair<T1,T2>&right) {
-            return left.first < right.first;
-        };
-    };
-}
 vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         const vec2& background,
         const Points& points,
@@ -40,19 +33,32 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         float max_quantile,
         int min_points) {
 
+    if(!gridpp::compatible_size(bgrid, background))
+        throw std::invalid_argument("Grid size is not the same as background");
+    if(bgrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
+    if(!(min_quantile >= 0 && min_quantile <= max_quantile && max_quantile <= 1))
+        throw std::invalid_argument("Quantiles must be increasing and between 0 and 1");
+    if (pobs.size() != pbackground.size()) {
+        std::stringstream ss;
+        ss << "pobs (" << pobs.size() << ") is not the same size as pbackground (" << pbackground.size() << ")";
+        throw std::invalid_argument(ss.str());
+    }
+    for(int t = 0; t < pobs.size(); t++) {
+        if(pobs[t].size() != pbackground[t].size() || pobs[t].size() < points.size()) {
+            std::stringstream ss;
+            ss << "pobs (" << pobs[t].size() << "), pbackground (" << pbackground[t].size() << "), and points (" << points.size() << ") size mismatch";
+            throw std::invalid_argument(ss.str());
+        }
+    }
+
     int nY = background.size();
-    int nX = background[0].size();
+    int nX = nY > 0 ? background[0].size() : 0;
     int nT = pobs.size();
     vec2 blats = bgrid.get_lats();
     vec2 blons = bgrid.get_lons();
     vec2 output(nY);
 
-    if (pobs.size() != pbackground.size()) {
-        std::stringstream ss;
-        ss << "pobs (" << pobs.size() << "," << pobs[0].size() << ") is not the same size as pbackground (" << pbackground.size() << "," << pbackground[0].size() << ")";
-        throw std::invalid_argument(ss.str());
-    }
-
     bool weighted = true;
     float alpha = 0.01;
     bool debug = false;
@@ -95,6 +101,8 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 Point p2 = points.get_point(index);
                 float curr_rho = structure.corr_background(p1, p2);
                 // curr_rho = 1;
+                if(!(curr_rho > 0))
+                    continue;
                 for(int t = 0; t < nT; t++) {
                     if(!gridpp::is_valid(pobs[t][index]) || !gridpp::is_valid(pbackground[t][index]))
                         continue;
@@ -114,12 +122,18 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
             if (count >= min_points) {
                 // Create a calibration curve of ref,fcst, so that we can adjust the current
                 // background value
-                std::sort(ref_rho.begin(), ref_rho.end(), ::sort_pair_first<float, float>());
-                std::sort(fcst_rho.begin(), fcst_rho.end(), ::sort_pair_first<float, float>());
+                // Order equal values by weight, so that the result does not depend on the order
+                // of the observations
+                std::sort(ref_rho.begin(), ref_rho.end());
+                std::sort(fcst_rho.begin(), fcst_rho.end());
 
                 // Remove the lowest and highest values
                 int d0 = (int) count * min_quantile;
                 int d1 = (int) count * max_quantile;
+                if(d1 <= d0) {
+                    // No observations to base a correction on
+                    continue;
+                }
                 ref_rho = std::vector<std::pair<float, float> >(ref_rho.begin() + d0, ref_rho.begin() + d1);
                 fcst_rho = std::vector<std::pair<float, float> >(fcst_rho.begin() + d0, fcst_rho.begin() + d1);
 
-- 
2.43.0


From 99017c8e7721569e92c380561214b8d183774e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 030/124] fix: optimal_interpolation terminates on singular
 matrices and accepts inputs of wrong sizes

---
 src/api/oi.cpp | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index ffa656c..a52d4bb 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -41,9 +41,9 @@ vec2 gridpp::optimal_interpolation(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(!gridpp::compatible_size(bgrid, background)) {
         std::stringstream ss;
-        ss << "input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
+        ss << "input field (" << background.size() << "," << (background.size() > 0 ? background[0].size() : 0) << ") is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != points.size()) {
@@ -63,7 +63,7 @@ vec2 gridpp::optimal_interpolation(const gridpp::Grid& bgrid,
     }
 
     int nY = background.size();
-    int nX = background[0].size();
+    int nX = nY > 0 ? background[0].size() : 0;
 
     gridpp::Points bpoints = bgrid.to_points();
     vec background1(nY * nX);
@@ -119,6 +119,11 @@ vec gridpp::optimal_interpolation(const gridpp::Points& bpoints,
         ss << "Ratios (" << pratios.size() << ") and points (" << points.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
 
     vec obs_variance(pratios.size());
     vec bvariance_at_points(pratios.size());
@@ -175,6 +180,11 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         ss << "Obs variance (" << obs_variance.size() << ") and points (" << points.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
     if(bvariance_at_points.size() != points.size()) {
         std::stringstream ss;
         ss << "Background variance (" << bvariance_at_points.size() << ") and points (" << points.size() << ") size mismatch";
@@ -186,8 +196,10 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
     }
     int nY = background.size();
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0) {
+        analysis_variance = bvariance;
         return background;
+    }
 
     vec pratios(nS);
     for(int s = 0; s < nS; s++) {
@@ -218,6 +230,9 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         point_vec.push_back(points.get_point(i));
     }
 
+    // Exceptions cannot leave the parallel region
+    bool is_singular = false;
+
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         if(!gridpp::is_valid(background[y])) {
@@ -312,20 +327,26 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
                 lP(i, j) = corr[j];
             }
         }
-        mattype lGSR = lG * arma::inv(lP + lR);
+        mattype lSR;
+        if(!arma::inv(lSR, lP + lR)) {
+            #pragma omp atomic write
+            is_singular = true;
+            continue;
+        }
+        mattype lGSR = lG * lSR;
         vectype dx = lGSR * (lObs - lY);
         float increment = dx[0];
         if(!allow_extrapolation) {
             float maxInc = arma::max(lObs - lY);
             float minInc = arma::min(lObs - lY);
 
-            if(maxInc > 0 && increment > maxInc) {
+            if(maxInc >= 0 && increment > maxInc) {
                increment = maxInc;
             }
             else if(maxInc < 0 && increment > 0) {
                increment = maxInc;
             }
-            else if(minInc < 0 && increment < minInc) {
+            else if(minInc <= 0 && increment < minInc) {
                increment = minInc;
             }
             else if(minInc > 0 && increment < 0) {
@@ -336,6 +357,8 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         mattype a = (lGSR * lG.t());
         analysis_variance[y] = bvariance[y] * (1 - a(0, 0));
     }
+    if(is_singular)
+        throw std::runtime_error("Could not invert matrix, observations with correlation 1 must have errors");
 
     return output;
 }
@@ -359,11 +382,13 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(!gridpp::compatible_size(bgrid, background)) {
         std::stringstream ss;
-        ss << "input field (" << bgrid.size()[0] << "," << bgrid.size()[1] << ") is not the same size as the grid (" << background.size() << "," << background[0].size() << ")";
+        ss << "input field (" << background.size() << "," << (background.size() > 0 ? background[0].size() : 0) << ") is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
+    if(!gridpp::compatible_size(bgrid, bvariance))
+        throw std::invalid_argument("Input bvariance is not the same size as the grid");
     if(obs.size() != points.size()) {
         std::stringstream ss;
         ss << "Observations (" << obs.size() << ") and points (" << points.size() << ") size mismatch";
@@ -381,7 +406,7 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
     }
 
     int nY = background.size();
-    int nX = background[0].size();
+    int nX = nY > 0 ? background[0].size() : 0;
 
     gridpp::Points bpoints = bgrid.to_points();
     vec background1(nY * nX);
-- 
2.43.0


From ba24489f4dcab9dfb5a2866814d6b411224492b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 031/124] fix: optimal_interpolation_ensi mixes up members when
 some are missing

---
 src/api/oi_ensi.cpp | 86 ++++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 28 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 4766d72..f488627 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -20,6 +20,26 @@ namespace {
             return left.first < right.first;
         };
     };
+
+    // Are all rows of the ensemble of the expected size?
+    bool has_size(const vec2& input, int Y, int X) {
+        if(input.size() != Y)
+            return false;
+        for(int y = 0; y < Y; y++) {
+            if(input[y].size() != X)
+                return false;
+        }
+        return true;
+    }
+    bool has_size(const vec3& input, int Y, int X, int E) {
+        if(input.size() != Y)
+            return false;
+        for(int y = 0; y < Y; y++) {
+            if(!has_size(input[y], X, E))
+                return false;
+        }
+        return true;
+    }
 }
 
 template<class Matrix>
@@ -61,12 +81,12 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != nY || background[0].size() != nX) {
+    int nE = background.size() > 0 && background[0].size() > 0 ? background[0][0].size() : 0;
+    if(!::has_size(background, nY, nX, nE)) {
         std::stringstream ss;
-        ss << "Input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input field is not the same size as the grid (" << nY << "," << nX << ") with " << nE << " members";
         throw std::invalid_argument(ss.str());
     }
-    int nE = background[0][0].size();
 
     if(pobs.size() != points.size()) {
         std::stringstream ss;
@@ -80,9 +100,9 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
     }
 
     // Check ensemble size is consistent
-    if(nE != pbackground[0].size()) {
+    if(!::has_size(pbackground, nS, nE)) {
         std::stringstream ss;
-        ss << "Ensemble members in gridded background (" << nE << ") is not the same as in the point background (" << pbackground[0].size() << ")";
+        ss << "The point background does not have " << nE << " ensemble members for each of the " << nS << " points";
         throw std::invalid_argument(ss.str());
     }
 
@@ -135,8 +155,10 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         throw std::invalid_argument("Background and points size mismatch");
 
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0 || background.size() == 0)
         return background;
+    if(!::has_size(background, background.size(), background[0].size()) || !::has_size(pbackground, nS, background[0].size()))
+        throw std::invalid_argument("Background and point background must have the same number of ensemble members everywhere");
 
     int mY = -1;  // Write debug information for this station index
     int num_parameters = 2;
@@ -163,11 +185,35 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     vec pelevs = points.get_elevs();
     vec plafs = points.get_lafs();
 
+    // Calculate number of valid members
+    int nValidEns = 0;
+    ivec validEns;
+    for(int e = 0; e < nEns; e++) {
+        int numInvalid = 0;
+        for(int y = 0; y < nY; y++) {
+            float value = background[y][e];
+            if(!gridpp::is_valid(value))
+                numInvalid++;
+        }
+        if(numInvalid == 0) {
+            validEns.push_back(e);
+            nValidEns++;
+        }
+    }
+    if(nValidEns == 0)
+        return background;
+
     // Compute Y
     vec2 gY = pbackground;
     vec gYhat(nS);
     for(int i = 0; i < nS; i++) {
-        float mean = gridpp::calc_statistic(gY[i], gridpp::Mean);
+        // Only use the members that are updated. The mean is missing, if any of them is.
+        vec values(nValidEns);
+        for(int e = 0; e < nValidEns; e++)
+            values[e] = gY[i][validEns[e]];
+        float mean = gridpp::MV;
+        if(gridpp::calc_statistic(values, gridpp::Count) == nValidEns)
+            mean = gridpp::calc_statistic(values, gridpp::Mean);
         for(int e = 0; e < nEns; e++) {
             float value = gY[i][e];
             if(gridpp::is_valid(value) && gridpp::is_valid(mean)) {
@@ -184,22 +230,6 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         point_vec.push_back(points.get_point(i));
     }
 
-    // Calculate number of valid members
-    int nValidEns = 0;
-    ivec validEns;
-    for(int e = 0; e < nEns; e++) {
-        int numInvalid = 0;
-        for(int y = 0; y < nY; y++) {
-            float value = background[y][e];
-            if(!gridpp::is_valid(value))
-                numInvalid++;
-        }
-        if(numInvalid == 0) {
-            validEns.push_back(e);
-            nValidEns++;
-        }
-    }
-
     // This causes segmentation fault when building the gridpp pypi package
     // 1) Tested removing num_condition_warning and num_real_part_warning from the parallel loop
     //    but it doesnt seem to help
@@ -232,7 +262,7 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index])) {
+            if(gridpp::is_valid(pobs[index]) && gridpp::is_valid(gYhat[index])) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
@@ -520,8 +550,8 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
@@ -534,13 +564,13 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From d654cdf95f98aed64b980874c868243079138ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 032/124] fix: optimal_interpolation_ensi_multi reads beyond
 its arrays and mixes up members

---
 src/api/oi_ensi_multi.cpp | 147 ++++++++++++++++++++++++--------------
 1 file changed, 95 insertions(+), 52 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 5339d4d..c9a9976 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -20,6 +20,26 @@ namespace {
             return left.first < right.first;
         };
     };
+
+    // Are all rows of the ensemble of the expected size?
+    bool has_size(const vec2& input, int Y, int X) {
+        if(input.size() != Y)
+            return false;
+        for(int y = 0; y < Y; y++) {
+            if(input[y].size() != X)
+                return false;
+        }
+        return true;
+    }
+    bool has_size(const vec3& input, int Y, int X, int E) {
+        if(input.size() != Y)
+            return false;
+        for(int y = 0; y < Y; y++) {
+            if(!has_size(input[y], X, E))
+                return false;
+        }
+        return true;
+    }
 }
 
 template<class Matrix>
@@ -66,35 +86,35 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
-    if(background.size() != nY || background[0].size() != nX) {
+    int nE = background.size() > 0 && background[0].size() > 0 ? background[0][0].size() : 0;
+    if(!::has_size(background, nY, nX, nE)) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
+    if(!::has_size(background_corr, nY, nX, nE)) {
         std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(bratios.size() != nY || bratios[0].size() != nX) {
+    if(!::has_size(bratios, nY, nX)) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(pbackground.size() != nS || pbackground[0].size() != nE) {
+    if(!::has_size(pbackground, nS, nE)) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
-    if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
+    if(!::has_size(pbackground_corr, nS, nE)) {
         std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground_corr field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
-    if(pobs.size() != nS || pobs[0].size() != nE) {
+    if(!::has_size(pobs, nS, nE)) {
         std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Observations and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pratios.size() != nS) {
@@ -167,25 +187,25 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
-    if(background.size() != nY || background[0].size() != nX) {
+    int nE = background.size() > 0 && background[0].size() > 0 ? background[0][0].size() : 0;
+    if(!::has_size(background, nY, nX, nE)) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(bratios.size() != nY || bratios[0].size() != nX) {
+    if(!::has_size(bratios, nY, nX)) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(pbackground.size() != nS || pbackground[0].size() != nE) {
+    if(!::has_size(pbackground, nS, nE)) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
-    if(pobs.size() != nS || pobs[0].size() != nE) {
+    if(!::has_size(pobs, nS, nE)) {
         std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Observations and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pratios.size() != nS) {
@@ -258,30 +278,30 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
-    if(background.size() != nY || background[0].size() != nX) {
+    int nE = background.size() > 0 && background[0].size() > 0 ? background[0][0].size() : 0;
+    if(!::has_size(background, nY, nX, nE)) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
+    if(!::has_size(background_corr, nY, nX, nE)) {
         std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(bratios.size() != nY || bratios[0].size() != nX) {
+    if(!::has_size(bratios, nY, nX)) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(pbackground.size() != nS || pbackground[0].size() != nE) {
+    if(!::has_size(pbackground, nS, nE)) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
-    if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
+    if(!::has_size(pbackground_corr, nS, nE)) {
         std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground_corr field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS) {
@@ -360,8 +380,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
 
     float default_min_std = 0.0013;
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0 || background.size() == 0)
         return background;
+    if(!::has_size(background, background.size(), background[0].size())
+            || !::has_size(background_corr, background.size(), background[0].size())
+            || !::has_size(pobs, nS, background[0].size())
+            || !::has_size(pbackground, nS, background[0].size())
+            || !::has_size(pbackground_corr, nS, background[0].size()))
+        throw std::invalid_argument("All ensembles must have the same number of members everywhere");
 
     int mY = -1;  // Write debug information for this station index
     bool diagnose = false;
@@ -418,8 +444,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     if(nValidEns == 0)
         return background;
 
-    // gZ_R(nY, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
-    vec2 gZ_R = gridpp::init_vec2(nY, nValidEns); // useful to compute dynamical correlations
+    // gZ_R(nS, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
+    vec2 gZ_R = gridpp::init_vec2(nS, nValidEns); // useful to compute dynamical correlations
     for(int i = 0; i < nS; i++) {
         vec pbackgroundValid_R(nValidEns);
         for(int e = 0; e < nValidEns; e++) {
@@ -477,7 +503,11 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2); 
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            // The observation is needed for every member that is updated
+            bool valid = true;
+            for(int e = 0; e < nValidEns; e++)
+                valid = valid && gridpp::is_valid(pobs[index][validEns[e]]);
+            if(valid) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
@@ -554,7 +584,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
             for(int e = 0; e < nValidEns; e++) {
                 lZ_R(i, e) = gZ_R[index][e];
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lLoc2D
             Point p1 = point_vec[index];
@@ -588,14 +618,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0;
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -654,8 +684,12 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
         throw std::invalid_argument("Background and points size mismatch");
 
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0 || background.size() == 0)
         return background;
+    if(!::has_size(background, background.size(), background[0].size())
+            || !::has_size(pobs, nS, background[0].size())
+            || !::has_size(pbackground, nS, background[0].size()))
+        throw std::invalid_argument("All ensembles must have the same number of members everywhere");
 
     int mY = -1;  // Write debug information for this station index
     bool diagnose = false;
@@ -742,7 +776,11 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            // The observation is needed for every member that is updated
+            bool valid = true;
+            for(int e = 0; e < nValidEns; e++)
+                valid = valid && gridpp::is_valid(pobs[index][validEns[e]]);
+            if(valid) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
@@ -803,7 +841,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
             // compute lInnov
             for(int e = 0; e < nValidEns; e++) {
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lCorr2D
             Point p1 = point_vec[index];
@@ -831,14 +869,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0; 
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -893,8 +931,13 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
 
     float default_min_std = 0.0013;
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0 || background.size() == 0)
         return background;
+    if(!::has_size(background, background.size(), background[0].size())
+            || !::has_size(background_corr, background.size(), background[0].size())
+            || !::has_size(pbackground, nS, background[0].size())
+            || !::has_size(pbackground_corr, nS, background[0].size()))
+        throw std::invalid_argument("All ensembles must have the same number of members everywhere");
 
     int mY = -1;  // Write debug information for this station index
     bool diagnose = false;
@@ -953,8 +996,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
         return background;
 
     // Compute Y
-    vec2 gY = gridpp::init_vec2(nY, nValidEns);
-    vec2 gY_corr = gridpp::init_vec2(nY, nValidEns);
+    vec2 gY = gridpp::init_vec2(nS, nValidEns);
+    vec2 gY_corr = gridpp::init_vec2(nS, nValidEns);
     vec gYhat(nS);
     float const_fact = 1 / sqrt(nValidEns-1);
     for(int i = 0; i < nS; i++) {
@@ -1263,8 +1306,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
@@ -1277,13 +1320,13 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From bdb52c842ef83424f094ccbd47a522a2f8c5298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 033/124] fix: interpolate crashed when iX has missing values
 on one side of x

---
 src/api/util.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 3e5658d..0c638f8 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -337,7 +337,7 @@ vec gridpp::calc_even_quantiles(const vec& values, int num) {
 
 }
 int gridpp::get_lower_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = 0; i < (int) iValues.size(); i++) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -356,7 +356,7 @@ int gridpp::get_lower_index(float iX, const vec& iValues) {
     return index;
 }
 int gridpp::get_upper_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = iValues.size()-1; i >= 0; i--) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -390,6 +390,9 @@ float gridpp::interpolate(float x, const vec& iX, const vec& iY) {
 
     int i0   = get_lower_index(x, iX);
     int i1   = get_upper_index(x, iX);
+    // Missing values among iX can leave x without a neighbour on one side
+    if(i0 < 0 || i1 < 0)
+        return gridpp::MV;
     float x0 = iX[i0];
     float x1 = iX[i1];
     float y0 = iY[i0];
-- 
2.43.0


From d63997a5b8d3278562a6682aebe1110c7a11eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 034/124] fix: convert_coordinates read out of bounds when
 latitudes and longitudes differ in number

---
 src/api/util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 0c638f8..3fd2bce 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -599,6 +599,8 @@ bool gridpp::point_in_rectangle(const Point& A, const Point& B, const Point& C,
 
 bool gridpp::convert_coordinates(const vec& lats, const vec& lons, CoordinateType type, vec& x_coords, vec& y_coords, vec& z_coords) {
     int N = lats.size();
+    if(lons.size() != N)
+        throw std::invalid_argument("Cannot convert coordinates. Lat and lon must have the same size.");
     x_coords.resize(N);
     y_coords.resize(N);
     z_coords.resize(N);
-- 
2.43.0


From 0000354e8a01fe3357bd420204a2171dac774e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 035/124] fix: neighbourhood: threads updated an unused shared
 counter

---
 src/api/neighbourhood.cpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 381b1e7..dba2842 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -56,7 +56,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
 
     double s_time = gridpp::clock();
     bool fast = true;
-    int count_stat = 0;
     int nY = input.size();
     int nX = input[0].size();
     vec2 output(nY);
@@ -195,7 +194,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         }
                     }
                     values[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                    count_stat += neighbourhood.size();
                 }
             }
             else {
@@ -209,7 +207,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         count++;
                     }
                     slivers[j] = gridpp::calc_statistic(sliver, statistic);
-                    count_stat += sliver.size();
                 }
                 for(int j = 0; j < nX; j++) {
                     vec curr;
@@ -218,7 +215,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         curr.push_back(slivers[jj]);
                     }
                     values[i][j] = gridpp::calc_statistic(curr, statistic);
-                    count_stat += curr.size();
                 }
             }
         }
@@ -271,7 +267,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         output = gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
     }
     double e_time = gridpp::clock() ;
-    // std::cout << count_stat << " " << e_time - s_time << " s" << std::endl;
     return output;
 }
 vec gridpp::get_neighbourhood_thresholds(const vec2& input, int num_thresholds) {
@@ -592,7 +587,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2(0);
@@ -634,7 +628,6 @@ namespace {
                     output[y][x] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[y][x] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
@@ -645,7 +638,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2();
@@ -691,7 +683,6 @@ namespace {
                     output[i][j] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
-- 
2.43.0


From 75933a9ca81d032a4bd11607146bc8fe229cf273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 036/124] fix: Python module deleted the vectors it was given,
 and lists it could not convert twice

---
 swig/vector.i | 65 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/swig/vector.i b/swig/vector.i
index 585d9de..72bd25a 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -56,12 +56,15 @@ namespace std {
         $1 = std::vector<DTYPE>(arg, arg+size);
     }
     else {
-        ptr = new std::vector<DTYPE>();
         int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        if(!SWIG_IsOK(test))
+            ptr = NULL; // Already deleted
+        if(ptr == NULL) {
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
         $1 = *ptr;
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL; // Belongs to the caller
     }
 }
 
@@ -87,12 +90,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<DTYPE>();
         int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        if(!SWIG_IsOK(test))
+            ptr = NULL; // Already deleted
+        if(ptr == NULL) {
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
         $1 = ptr;
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL; // Belongs to the caller
     }
 }
 
@@ -119,12 +125,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<DTYPE>();
         int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        if(!SWIG_IsOK(test))
+            ptr = NULL; // Already deleted
+        if(ptr == NULL) {
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
         $1 = ptr;
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL; // Belongs to the caller
     }
 }
 
@@ -219,12 +228,15 @@ namespace std {
         $1 = temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
         int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        if(!SWIG_IsOK(test))
+            ptr = NULL; // Already deleted
+        if(ptr == NULL) {
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
         $1 = *ptr;
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL; // Belongs to the caller
     }
 }
 
@@ -256,13 +268,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
-        swig::asptr($input, &ptr);
         int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        if(!SWIG_IsOK(test))
+            ptr = NULL; // Already deleted
+        if(ptr == NULL) {
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
         $1 = ptr;
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL; // Belongs to the caller
     }
 }
 /* Same as the const version above */
@@ -294,13 +308,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
-        swig::asptr($input, &ptr);
         int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        if(!SWIG_IsOK(test))
+            ptr = NULL; // Already deleted
+        if(ptr == NULL) {
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
         $1 = ptr;
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL; // Belongs to the caller
     }
 }
 
@@ -390,12 +406,15 @@ namespace std {
         $1 = temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
         int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        if(!SWIG_IsOK(test))
+            ptr = NULL; // Already deleted
+        if(ptr == NULL) {
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
         $1 = *ptr;
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL; // Belongs to the caller
     }
 }
 
@@ -431,12 +450,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
         int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        if(!SWIG_IsOK(test))
+            ptr = NULL; // Already deleted
+        if(ptr == NULL) {
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
         $1 = ptr;
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL; // Belongs to the caller
     }
 }
 
@@ -473,12 +495,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
         int test = swig::asptr($input, &ptr);
-        if(ptr == NULL || !SWIG_IsOK(test)) {
+        if(!SWIG_IsOK(test))
+            ptr = NULL; // Already deleted
+        if(ptr == NULL) {
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
         $1 = ptr;
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL; // Belongs to the caller
     }
 }
 
-- 
2.43.0


From 308a507a89b1cd6ed7c94583ebf345c1a9a4d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 037/124] fix: Python module aborted on arrays that have no
 numbers

---
 swig/vector.i | 54 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/swig/vector.i b/swig/vector.i
index 72bd25a..4ec5614 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -46,10 +46,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -79,10 +81,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -114,10 +118,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -213,10 +219,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
@@ -252,10 +260,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
@@ -292,10 +302,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
@@ -387,10 +399,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
@@ -430,10 +444,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
@@ -475,10 +491,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                SWIG_fail;
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            SWIG_fail;
         py_array = (PyArrayObject*) py_obj;
         assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
-- 
2.43.0


From f121f9f03574ddede6a1bd9661e25187bc931c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 038/124] fix: distance between locations closer than rounding
 was not a number

---
 src/client/Util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 5d62b79..45fbd8a 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -132,6 +132,8 @@ float Util::getDistance(float lat1, float lon1, float lat2, float lon2, bool app
       double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                    + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                    + sin(lat1r)*sin(lat2r);
+      // Rounding can bring the ratio just outside the domain of acos
+      ratio = std::max(-1.0, std::min(1.0, ratio));
       double dist = acos(ratio)*radiusEarth;
       return (float) dist;
    }
-- 
2.43.0


From 242df3bc76859ca5fe8f607f64fbdb97d7839464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 039/124] fix: command line merged two variables when one with
 -vi had options

---
 src/client/Setup.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 6f3edde..c6bbde2 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -192,10 +192,13 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-v") {
             state = NEWVAR;
          }
-         else if(argv[index] == "-vi") {
+         else if(variableInputName == "" && argv[index] == "-vi") {
             index++;
             state = VARI;
          }
+         else if(argv[index] == "-vi") {
+            state = NEWVAR;
+         }
          else if(argv[index] == "-p") {
             errorMessage = "-p must be after a -d or -c";
             state = ERROR;
@@ -264,10 +267,13 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
-         else if(argv[index] == "-v") {
+         else if(variableName == "" && argv[index] == "-v") {
             state = VAR;
             index++;
          }
+         else if(argv[index] == "-v") {
+            state = NEWVAR;
+         }
          else if(argv[index] == "-p") {
             errorMessage = "-p must be after a -d or -c";
             state = ERROR;
-- 
2.43.0


From 9a2a72863d68230800af386a80d6c051b8b7798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 040/124] fix: parameter file name and options leaked to the
 next calibrator on the command line

---
 src/client/Setup.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index c6bbde2..d6ceaa7 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -602,6 +602,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             }
             else if(argv[index] == "-p") {
                state = PARCAL;
+               index++;
             }
             else {
                state = CALOPT;
@@ -626,6 +627,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else if(argv[index] == "-p") {
             state = PARCAL;
+            index++;
          }
          else {
             // Process calibrator options
@@ -641,25 +643,21 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else {
             parameterFile = argv[index];
+            index++;
             if(argv.size() <= index) {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-v") {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-vi") {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-c") {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-d") {
                state = NEWCAL;
-               index++;
             }
             else if(argv[index] == "-p") {
                state = PARCAL;
@@ -688,6 +686,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else if(argv[index] == "-p") {
             state = PARCAL;
+            index++;
          }
          else {
             // Process calibrator options
@@ -724,6 +723,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             calibrator = "";
             cOpt.clear();
             parameterFile = "";
+            pOptions.clear();
             if(argv.size() <= index) {
                state = NEWVAR;
             }
-- 
2.43.0


From cac0f5310970da252fa8a329f8534a0f5e44d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 041/124] fix: parameter file of a downscaler was read as the
 next calibrator's on the command line

---
 src/client/Setup.cpp | 66 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index d6ceaa7..708fbc4 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -87,7 +87,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
    }
 
    // Implement a finite state machine
-   enum State {START = 0, VAR = 1, VAROPT = 2, NEWVAR = 3, VARI = 4, VARIOPT = 5, VARALIAS = 6, VARALIASOPT = 7, NEWVARALIAS = 8, DOWN = 10, DOWNOPT = 15, CAL = 20, NEWCAL = 22, CALOPT = 25, PARDOWN = 30, PAROPTDOWN = 35, PARCAL = 40, PAROPTCAL = 45, END = 90, ERROR = 100};
+   enum State {START = 0, VAR = 1, VAROPT = 2, NEWVAR = 3, VARI = 4, VARIOPT = 5, VARALIAS = 6, VARALIASOPT = 7, NEWVARALIAS = 8, DOWN = 10, DOWNOPT = 15, CAL = 20, NEWCAL = 22, CALOPT = 25, PARDOWN = 30, PAROPTDOWN = 35, NEWPARDOWN = 37, PARCAL = 40, PAROPTCAL = 45, END = 90, ERROR = 100};
    State state = START;
    State prevState = START;
 
@@ -485,6 +485,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             }
             else if(argv[index] == "-p") {
                state = PARDOWN;
+               index++;
             }
             else {
                state = DOWNOPT;
@@ -507,6 +508,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else if(argv[index] == "-p") {
             state = PARDOWN;
+            index++;
          }
          else {
             // Process downscaler options
@@ -524,22 +526,19 @@ Setup::Setup(const std::vector<std::string>& argv) {
             parameterFile = argv[index];
             index++;
             if(argv.size() <= index) {
-               state = NEWVAR;
+               state = NEWPARDOWN;
             }
             else if(argv[index] == "-c") {
-               state = CAL;
-               index++;
+               state = NEWPARDOWN;
             }
             else if(argv[index] == "-v") {
-               state = NEWVAR;
+               state = NEWPARDOWN;
             }
             else if(argv[index] == "-vi") {
-               state = NEWVAR;
+               state = NEWPARDOWN;
             }
             else if(argv[index] == "-d") {
-               // Two downscalers defined for one variable
-               state = DOWN;
-               index++;
+               state = NEWPARDOWN;
             }
             else if(argv[index] == "-p") {
                // Two parameter files defined for one variable
@@ -554,20 +553,22 @@ Setup::Setup(const std::vector<std::string>& argv) {
       }
       else if(state == PAROPTDOWN) {
          if(argv.size() <= index) {
-            state = NEWVAR;
+            state = NEWPARDOWN;
          }
          else if(argv[index] == "-c") {
-            state = CAL;
-            index++;
+            state = NEWPARDOWN;
          }
          else if(argv[index] == "-v") {
-            state = NEWVAR;
+            state = NEWPARDOWN;
          }
          else if(argv[index] == "-vi") {
-            state = NEWVAR;
+            state = NEWPARDOWN;
+         }
+         else if(argv[index] == "-d") {
+            state = NEWPARDOWN;
          }
          else if(argv[index] == "-p") {
-            errorMessage = "Two or more -p used for one calibrator";
+            errorMessage = "Two or more -p used for one downscaler";
             state = ERROR;
          }
          else {
@@ -576,6 +577,41 @@ Setup::Setup(const std::vector<std::string>& argv) {
             index++;
          }
       }
+      else if(state == NEWPARDOWN) {
+         std::string schemeName;
+         if(!pOptions.getValue("type", schemeName)) {
+            state = ERROR;
+            errorMessage = "Parameter file missing 'type': " + pOptions.toString();
+         }
+         else {
+            pOptions.addOption("file", parameterFile);
+            parameterFileDownscaler = ParameterFile::getScheme(schemeName, pOptions);
+            if(!parameterFileDownscaler->isReadable()) {
+               state = ERROR;
+               errorMessage = "Could not open parameter file: " + pOptions.toString();
+            }
+         }
+         if(state != ERROR) {
+            // Reset
+            parameterFile = "";
+            pOptions.clear();
+            if(argv.size() <= index) {
+               state = NEWVAR;
+            }
+            else if(argv[index] == "-c") {
+               state = CAL;
+               index++;
+            }
+            else if(argv[index] == "-d") {
+               // Two downscalers defined for one variable
+               state = DOWN;
+               index++;
+            }
+            else {
+               state = NEWVAR;
+            }
+         }
+      }
       else if(state == CAL) {
          if(argv.size() <= index) {
             // -c but nothing after it
-- 
2.43.0


From 1c399af3a70e69c49300e8478f06108b11ecea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 042/124] fix: options of a replaced downscaler were given to
 the downscaler that replaces it

---
 src/client/Setup.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 708fbc4..c27a44e 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -463,7 +463,10 @@ Setup::Setup(const std::vector<std::string>& argv) {
             state = ERROR;
          }
          else {
+            // If several downscalers are defined for one variable, use the last
             downscaler = argv[index];
+            dOptions.clear();
+            parameterFileDownscaler = NULL;
             index++;
             if(argv.size() <= index) {
                state = NEWVAR;
@@ -506,6 +509,11 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
+         else if(argv[index] == "-d") {
+            // Two downscalers defined for one variable
+            state = DOWN;
+            index++;
+         }
          else if(argv[index] == "-p") {
             state = PARDOWN;
             index++;
-- 
2.43.0


From f499b63525e6a36dfb754b383ced00515253c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 043/124] fix: a second variable alias was read as options of
 the first

---
 src/client/Setup.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index c27a44e..eb34e64 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -422,6 +422,9 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVARALIAS;
          }
+         else if(argv[index] == "-va") {
+            state = NEWVARALIAS;
+         }
          else {
             aOptions.addOptions(argv[index]);
             index++;
@@ -436,14 +439,15 @@ Setup::Setup(const std::vector<std::string>& argv) {
                Util::error("Variable alias must have a name= option");
             }
             variableAliases[variableAlias] = Variable(aOptions);
-            variableAlias = "";
-            aOptions.clear();
          }
          else {
             std:: stringstream ss;
             ss << "Variable alias '" << variableAlias << "' already read. Using first instance.";
             Util::warning(ss.str());
          }
+         // Reset
+         variableAlias = "";
+         aOptions.clear();
          if(argv.size() <= index) {
             state = END;
          }
@@ -455,6 +459,10 @@ Setup::Setup(const std::vector<std::string>& argv) {
             state = VARI;
             index++;
          }
+         else if(argv[index] == "-va"){
+            state = VARALIAS;
+            index++;
+         }
       }
       else if(state == DOWN) {
          if(argv.size() <= index) {
-- 
2.43.0


From b52a4d2de8b4ea4136fef7b560523c7d68b57fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 044/124] fix: maximum of a variable was set from its minimum

---
 src/client/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 4de36d6..7529106 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -91,7 +91,7 @@ void Variable::add(const Options& iOptions) {
       mMin = min;
    }
    float max;
-   if(iOptions.getValue("min", max)) {
+   if(iOptions.getValue("max", max)) {
       mMax = max;
    }
 }
-- 
2.43.0


From dae889845c9d684ede62c96f143bec3ff3e01d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 045/124] fix: retrieving a field that is not available erased
 the variable's other times

---
 src/client/File/File.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/File/File.cpp b/src/client/File/File.cpp
index 38770a4..66e1fb6 100644
--- a/src/client/File/File.cpp
+++ b/src/client/File/File.cpp
@@ -111,6 +111,9 @@ FieldPtr File::getField(const Variable& iVariable, int iTime, bool iSkipRead) co
       }
       else if (iSkipRead) {
          for(int t = 0; t < getNumTime(); t++) {
+            // Keep fields that have been added for other times
+            if(mFields[iVariable][t] != NULL)
+               continue;
             FieldPtr field = getEmptyField();
             addField(field, iVariable, t);
          }
@@ -119,6 +122,9 @@ FieldPtr File::getField(const Variable& iVariable, int iTime, bool iSkipRead) co
          std::string variableType = iVariable.name();
          Util::warning(variableType + " not available in '" + getFilename() + "'");
          for(int t = 0; t < getNumTime(); t++) {
+            // Keep fields that have been added for other times
+            if(mFields[iVariable][t] != NULL)
+               continue;
             FieldPtr field = getEmptyField();
             addField(field, iVariable, t);
          }
-- 
2.43.0


From 6ae056d1909e8b0b476523d23f0471a6366f83a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 046/124] fix: parameter locations were mixed up when the tree
 was computed a second time

---
 src/client/ParameterFile/ParameterFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index 1d56324..d1bbda7 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -21,6 +21,7 @@ ParameterFile::ParameterFile(const Options& iOptions, bool iIsNew) :
 void ParameterFile::recomputeTree() const {
    if(isLocationDependent()) {
       vec2 lats, lons;
+      mLocations.clear();
       LocationParameters::const_iterator it = mParameters.begin();
       for(it = mParameters.begin(); it != mParameters.end(); it++) {
          const Location loc = it->first;
-- 
2.43.0


From c874ea858ae0858980cde2c597057e848476e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 047/124] fix: text parameter files lost their last line when
 it had no newline

---
 src/client/ParameterFile/Text.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 4c38636..73f1578 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -23,11 +23,10 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
    int latPos = Util::MV;
    int lonPos = Util::MV;
    int elevPos = Util::MV;
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
-         header = std::string(line);
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
+         header = line;
          std::stringstream ss(header);
          if(columnNames.size() == 0) {
             int currCounter = 0;
-- 
2.43.0


From 9f2d0fe2e5b00f05c4c6f92eb6da6fb8640939cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 048/124] fix: text parameter files could not be read back,
 their header was on two lines

---
 src/client/ParameterFile/Text.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 73f1578..768a542 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -180,12 +180,13 @@ void ParameterFileText::write(const std::string& iFilename) const {
    std::map<Location, std::vector<Parameters> >::const_iterator it;
    // Loop over times
    if(isLocationDependent())
-      ofs << "time lat lon elev" << std::endl;
+      ofs << "time lat lon elev";
    else
-      ofs << "time" << std::endl;
+      ofs << "time";
    for(int i = 0; i < getNumParameters(); i++) {
       ofs << " param" << i;
    }
+   ofs << std::endl;
    for(it = mParameters.begin(); it != mParameters.end(); it++) {
       // Loop over locations
       const Location& location = it->first;
-- 
2.43.0


From ac055cf260119a9dd094382ff2133e825a5d45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 049/124] fix: parameter files without parameters read an
 element that does not exist

---
 src/client/ParameterFile/ParameterFile.cpp | 4 +++-
 src/client/ParameterFile/Text.cpp          | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index d1bbda7..bc4d71f 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -76,6 +76,8 @@ Parameters ParameterFile::getParameters(int iTime) const {
    if(isLocationDependent()) {
       Util::error("Cannot retrieve location-independent parameters for a location-dependent file");
    }
+   if(mParameters.size() == 0)
+      return Parameters();
    // Find the right location to use
    LocationParameters::const_iterator it;
    if(mParameters.size() == 1) {
@@ -223,7 +225,7 @@ std::vector<int> ParameterFile::getTimes() const {
 
 bool ParameterFile::isLocationDependent() const {
    bool locationDependent = mParameters.size() > 1;
-   if(!locationDependent) {
+   if(mParameters.size() == 1) {
       Location location = mParameters.begin()->first;
       if(Util::isValid(location.lat()) && Util::isValid(location.lon()))
          locationDependent = true;
diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 768a542..533f6c2 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -211,7 +211,7 @@ void ParameterFileText::write(const std::string& iFilename) const {
 
 bool ParameterFileText::isLocationDependent() const {
    bool locationDependent = mParameters.size() > 1;
-   if(!locationDependent) {
+   if(mParameters.size() == 1) {
       Location location = mParameters.begin()->first;
       if(Util::isValid(location.lat()) && Util::isValid(location.lon()))
          locationDependent = true;
-- 
2.43.0


From 58c28b06dfb7f16a7f4357dfaf0eb08686df8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 050/124] fix: nearest neighbour search missed points at high
 latitudes and across the date line

---
 src/client/KDTree.cpp | 37 +++++++++++++++++++++++++++++++++----
 src/client/KDTree.h   |  7 ++++++-
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/client/KDTree.cpp b/src/client/KDTree.cpp
index 36fd406..ee8f22b 100644
--- a/src/client/KDTree.cpp
+++ b/src/client/KDTree.cpp
@@ -2,7 +2,7 @@
 
 #include <limits>
 
-KDTree::KDTree() : mRoot(NULL) {
+KDTree::KDTree() : mRoot(NULL), mMinLon(Util::MV), mMaxLon(Util::MV) {
 }
 
 KDTree::KDTree(const vec2& iLats, const vec2& iLons) {
@@ -12,13 +12,15 @@ KDTree::KDTree(const vec2& iLats, const vec2& iLons) {
 KDTree& KDTree::operator=(KDTree other) {
    std::swap(mLats, other.mLats);
    std::swap(mLons, other.mLons);
+   std::swap(mMinLon, other.mMinLon);
+   std::swap(mMaxLon, other.mMaxLon);
 
    mRoot.swap(other.mRoot);
 
    return *this;
 }
 
-KDTree::KDTree(const KDTree& other) {
+KDTree::KDTree(const KDTree& other) : mMinLon(other.mMinLon), mMaxLon(other.mMaxLon) {
    if(other.mRoot != NULL) {
       mLats = other.mLats;
       mLons = other.mLons;
@@ -44,9 +46,15 @@ void KDTree::build(const vec2& iLats, const vec2& iLons) {
 
    indexdVec::iterator currLon = lons.begin();
    size_t to = -1;
+   mMinLon = Util::MV;
+   mMaxLon = Util::MV;
    for(size_t i = 0; i < iLats.size(); ++i) {
      for(size_t j = 0; j < iLats[0].size(); ++j) {
         if(Util::isValid(iLons[i][j]) && Util::isValid(iLats[i][j])) {
+           if(!Util::isValid(mMinLon) || iLons[i][j] < mMinLon)
+              mMinLon = iLons[i][j];
+           if(!Util::isValid(mMaxLon) || iLons[i][j] > mMaxLon)
+              mMaxLon = iLons[i][j];
            *(currLon++) = Indexed(iLons[i][j], iLats[i][j], i, j);
            ++to;
         }
@@ -127,7 +135,23 @@ const KDTree::TreeNode* KDTree::firstGuess(const unode& root, const float lon, c
    return root.get();
 }
 
-const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float lon, const float lat, const float oldBest) {
+float KDTree::getDistanceToLons(const float lon, const float lat, const float lonFrom, const float lonTo) {
+   double width = (double) lonTo - lonFrom;
+   double offset = fmod((double) lon - lonFrom, 360);
+   if(offset < 0)
+      offset += 360;
+   if(offset <= width)
+      return 0;
+   // Degrees to the nearest end of the range
+   double diff = std::min(offset - width, 360 - offset);
+   double coslat = cos(Util::deg2rad(lat));
+   if(diff >= 90)
+      return Util::getDistance(lat, 0, lat >= 0 ? 90 : -90, 0);
+   // Distance to the nearest point on the meridian, which is nearer than the point at the same latitude
+   return Util::radiusEarth * asin(sin(Util::deg2rad(diff)) * coslat);
+}
+
+const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float lon, const float lat, const float oldBest) const {
 
    const TreeNode * nearLeaf = firstGuess(root, lon, lat);
 
@@ -147,7 +171,12 @@ const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float l
 
       bool cross;
       if(currentLeaf->xsection) {
-         cross = Util::getDistance(lat, lon, lat, currentLeaf->lon) < currBest;
+         // Points on the other side of this node can be closer than the node's longitude at this latitude,
+         // and can also be reached from the other end of the longitudes
+         bool crossToRight = currentLeaf->left.get() == nearLeaf;
+         float lonFrom = crossToRight ? currentLeaf->lon : mMinLon;
+         float lonTo = crossToRight ? mMaxLon : currentLeaf->lon;
+         cross = getDistanceToLons(lon, lat, lonFrom, lonTo) < currBest;
       } else {
          cross = Util::getDistance(lat, lon, currentLeaf->lat, lon) < currBest;
       }
diff --git a/src/client/KDTree.h b/src/client/KDTree.h
index 1e76fd9..3213e76 100644
--- a/src/client/KDTree.h
+++ b/src/client/KDTree.h
@@ -73,6 +73,9 @@ class KDTree {
       unode mRoot;
       vec2 mLats;
       vec2 mLons;
+      // Range of longitudes in the tree
+      float mMinLon;
+      float mMaxLon;
 
       friend bool compareLons (const KDTree::Indexed& l, const KDTree::Indexed& r);
       friend bool compareLats (const KDTree::Indexed& l, const KDTree::Indexed& r);
@@ -80,7 +83,9 @@ class KDTree {
       typedef std::pair<const KDTree::TreeNode*, float> queryRes;
 
 
-      static const queryRes nearestNeighbour(const unode& root, const float lon, const float lat, const float oldBest);
+      const queryRes nearestNeighbour(const unode& root, const float lon, const float lat, const float oldBest) const;
+      // Lower bound on the distance to all points with longitudes between lonFrom and lonTo
+      static float getDistanceToLons(const float lon, const float lat, const float lonFrom, const float lonTo);
       static const TreeNode* firstGuess(const unode& root, const float lon, const float lat);
       static void subTree(indexdVec& iLonLat,
                           const size_t from,
-- 
2.43.0


From 1fd2f1b7c488e8ee95ce703525a145d067ab9321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 051/124] fix: parameters for a negative time were written
 outside the store

---
 src/client/ParameterFile/ParameterFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index bc4d71f..d130db7 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -192,6 +192,11 @@ bool ParameterFile::getNearestLocation(int iTime, const Location& iLocation, Loc
 }
 
 void ParameterFile::setParameters(Parameters iParameters, int iTime, const Location& iLocation) {
+   if(iTime < 0) {
+      std::stringstream ss;
+      ss << "Could not set parameters for time " << iTime;
+      Util::error(ss.str());
+   }
    setMaxTimeIndex(std::max(getMaxTimeIndex(), iTime));
    LocationParameters::const_iterator it = mParameters.find(iLocation);
    if(mParameters[iLocation].size() <= iTime) {
-- 
2.43.0


From 85ddbadc558a7217d2867ce0a69abf1ffdf08dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 052/124] fix: NetCDF parameter files whose variable has not
 four dimensions read beyond the sizes

---
 src/client/ParameterFile/Netcdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index ac32be4..7d74db1 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -165,7 +165,7 @@ ParameterFileNetcdf::ParameterFileNetcdf(const Options& iOptions, bool iIsNew) :
    std::stringstream ss0;
    ss0 << "Parameter sizes (lat, lon, time, coeff): " << nLat << " " << nLon << " " << nTime << " " << nCoeff;
    Util::info(ss0.str());
-   std::vector<int> indices(4, 0);
+   std::vector<int> indices(ndims, 0);
    for(int i = 0; i < lats.size(); i++) {
       indices[latDimIndex] = i;
       for(int j = 0; j < lats[i].size(); j++) {
-- 
2.43.0


From 803d14b5bf769f0b0d54ada5afa2ec181c5e7338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 053/124] fix: locations without elevation in text parameter
 files were read as no location

---
 src/client/ParameterFile/Text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 533f6c2..2b71c23 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -101,7 +101,7 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
             }
             times.insert(time);
             Location location(Util::MV, Util::MV, Util::MV);
-            if(Util::isValid(lat) && Util::isValid(lon) && Util::isValid(elev)) {
+            if(Util::isValid(lat) && Util::isValid(lon)) {
                location = Location(lat, lon, elev);
             }
 
-- 
2.43.0


From bffd627c64968cf659a60f0f450b6f9067f74461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 054/124] fix: bilinear downscaler used the nearest neighbour
 beside the first row of grids going southwards or westwards

---
 src/client/Downscaler/Bilinear.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 152ac23..f436541 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -225,12 +225,12 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
    if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
       return false;
    // x 3 2 1 0
-   if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
+   if(!isRight && J == nJ-1 && iLons[I][J-1] > iLons[I][J])
       return false;
 
    // Are the lats/lons increating when the index increases?
-   bool Iinc = (I == 0) || (iLats[I][J] > iLats[I-1][J]);
-   bool Jinc = (J == 0) || (iLons[I][J] > iLons[I][J-1]);
+   bool Iinc = (I == 0) ? (iLats[1][J] > iLats[0][J]) : (iLats[I][J] > iLats[I-1][J]);
+   bool Jinc = (J == 0) ? (iLons[I][1] > iLons[I][0]) : (iLons[I][J] > iLons[I][J-1]);
 
    getI(I, isAbove, Iinc, I1, I2);
    getJ(J, isRight, Jinc, J1, J2);
@@ -312,7 +312,7 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
       if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
          return false;
       // x 3 2 1 0
-      if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
+      if(!isRight && J == nJ-1 && iLons[I][J-1] > iLons[I][J])
          return false;
       x0 = iLons[I1][J1];
       x1 = iLons[I2][J1];
-- 
2.43.0


From 35067fff83a7662f3ec9b4651e46df5e24353d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 055/124] fix: bilinear downscaler read outside grids of one
 row or column and beyond the edge of distorted grids

---
 src/client/Downscaler/Bilinear.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index f436541..e4a8e48 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -200,6 +200,10 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
    assert(I < nI && I >= 0);
    assert(J < nJ && J >= 0);
 
+   // There is no cell to interpolate within
+   if(nI < 2 || nJ < 2)
+      return false;
+
    // Check if we are outside the grid
    // 0 1 2 3 x
    // if(I == nI-1 || I == 0 || J == nJ -1 || J == 0)
@@ -314,6 +318,8 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
       // x 3 2 1 0
       if(!isRight && J == nJ-1 && iLons[I][J-1] > iLons[I][J])
          return false;
+      if(I1 < 0 || I2 >= nI || J1 < 0 || J2 >= nJ)
+         return false;
       x0 = iLons[I1][J1];
       x1 = iLons[I2][J1];
       x2 = iLons[I1][J2];
-- 
2.43.0


From c046f2dcab835c97836aff245b1c0985a2dda1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 056/124] fix: downscalers read outside the input where output
 coordinates are missing

---
 src/client/Downscaler/Bilinear.cpp         | 10 ++++++++++
 src/client/Downscaler/Gradient.cpp         |  2 ++
 src/client/Downscaler/NearestNeighbour.cpp |  8 ++++----
 src/client/Downscaler/Pressure.cpp         |  6 ++++++
 src/client/Downscaler/Smart.cpp            |  2 ++
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index e4a8e48..d5e91c3 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -94,6 +94,10 @@ vec2 DownscalerBilinear::downscaleVec(const vec2& iInput,
          // and then figure out what side of this point the other there points are.
          int I = nearestI[i][j];
          int J = nearestJ[i][j];
+         if(!Util::isValid(I) || !Util::isValid(J)) {
+            output[i][j] = Util::MV;
+            continue;
+         }
          float lat = iOutputLats[i][j];
          float lon = iOutputLons[i][j];
          int I1 = Util::MV;
@@ -146,6 +150,12 @@ void DownscalerBilinear::downscaleField(const Field& iInput, Field& iOutput,
       for(int j = 0; j < nLon; j++) {
          int I = nearestI[i][j];
          int J = nearestJ[i][j];
+         if(!Util::isValid(I) || !Util::isValid(J)) {
+            for(int ee = 0; ee < nEns; ee++) {
+               iOutput(i,j,ee) = Util::MV;
+            }
+            continue;
+         }
          float lat = iOutputLats[i][j];
          float lon = iOutputLons[i][j];
          // Find out if current lookup point is right/above the nearest neighbour
diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index f708cee..938db4a 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -109,6 +109,8 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
          for(int j = 0; j < nLon; j++) {
             int Icenter = nearestI[i][j];
             int Jcenter = nearestJ[i][j];
+            if(!Util::isValid(Icenter) || !Util::isValid(Jcenter))
+               continue;
             assert(Icenter < ielevs.size());
             assert(Jcenter < ielevs[Icenter].size());
             for(int e = 0; e < nEns; e++) {
diff --git a/src/client/Downscaler/NearestNeighbour.cpp b/src/client/Downscaler/NearestNeighbour.cpp
index 81a147c..d55069e 100644
--- a/src/client/Downscaler/NearestNeighbour.cpp
+++ b/src/client/Downscaler/NearestNeighbour.cpp
@@ -92,15 +92,15 @@ vec2 DownscalerNearestNeighbour::downscaleVec(const vec2& iInput,
          assert(j < nearestJ[i].size());
          int I = nearestI[i][j];
          int J = nearestJ[i][j];
-         assert(I < iInput.size());
-         assert(J < iInput[I].size());
-         assert(I >= 0);
-         assert(J >= 0);
          assert(i < output.size());
          assert(j < output[i].size());
          assert(i >= 0);
          assert(j >= 0);
          if(Util::isValid(I) && Util::isValid(J)) {
+            assert(I >= 0);
+            assert(J >= 0);
+            assert(I < iInput.size());
+            assert(J < iInput[I].size());
             output[i][j] = iInput[I][J];
          }
          else
diff --git a/src/client/Downscaler/Pressure.cpp b/src/client/Downscaler/Pressure.cpp
index ae6d06f..158d030 100644
--- a/src/client/Downscaler/Pressure.cpp
+++ b/src/client/Downscaler/Pressure.cpp
@@ -35,6 +35,12 @@ void DownscalerPressure::downscaleCore(const File& iInput, File& iOutput) const
          for(int j = 0; j < nLon; j++) {
             int Icenter = nearestI[i][j];
             int Jcenter = nearestJ[i][j];
+            if(!Util::isValid(Icenter) || !Util::isValid(Jcenter)) {
+               for(int e = 0; e < nEns; e++) {
+                  ofield(i,j,e) = Util::MV;
+               }
+               continue;
+            }
             assert(Icenter < ielevs.size());
             assert(Jcenter < ielevs[Icenter].size());
             for(int e = 0; e < nEns; e++) {
diff --git a/src/client/Downscaler/Smart.cpp b/src/client/Downscaler/Smart.cpp
index 81a9b7c..a2b9e5c 100644
--- a/src/client/Downscaler/Smart.cpp
+++ b/src/client/Downscaler/Smart.cpp
@@ -81,6 +81,8 @@ void DownscalerSmart::getSmartNeighbours(const File& iFrom, const File& iTo, vec
       for(int j = 0; j < nLon; j++) {
          int Ic = Icenter[i][j];
          int Jc = Jcenter[i][j];
+         if(!Util::isValid(Ic) || !Util::isValid(Jc))
+            continue;
          float oelev = oelevs[i][j];
          float nnElev = ielevs[Ic][Jc];
          bool isWithinMinElev = Util::isValid(oelev) && Util::isValid(nnElev) && Util::isValid(mMinElevDiff) && 
-- 
2.43.0


From 9b73b62a34f12572c404b70e0b7fad0d6087498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 057/124] fix: limit of the gradient downscaler missed the
 first value of the neighbourhood as its maximum

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 938db4a..b9f6992 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -199,7 +199,7 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
                            if(Util::isValid(curr)) {
                               if(!Util::isValid(min) || curr < min)
                                  min = curr;
-                              else if(!Util::isValid(max) || curr > max)
+                              if(!Util::isValid(max) || curr > max)
                                  max = curr;
                            }
                         }
-- 
2.43.0


From 4da1c8373e4f81d46f2b1a39f143f0dd82ce562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 058/124] fix: land fraction gradient in a smaller radius used
 points of the larger radii before it

---
 src/client/Downscaler/Gradient.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index b9f6992..393974e 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -288,17 +288,17 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
       value = minT + gradient * dLaf
    */
    // Compute the average temperature and LAF in a small radius
-   float minLaf = Util::MV;
-   float maxLaf = Util::MV;
-   float minElev = Util::MV;
-   float maxElev = Util::MV;
-   float minT = Util::MV;
-   float maxT = Util::MV;
    // std::vector<float> values(mSearchRadii.size(), Util::MV);
    float value = 0;
    int counter = 0;
    float totalWeight = 0;
    for(int r = 0; r < mLafSearchRadii.size(); r++) {
+      float minLaf = Util::MV;
+      float maxLaf = Util::MV;
+      float minElev = Util::MV;
+      float maxElev = Util::MV;
+      float minT = Util::MV;
+      float maxT = Util::MV;
       int numSeaPoints = 0;
       int numPoints = 0;
       int searchRadius = mLafSearchRadii[r];
-- 
2.43.0


From 8f724d5f79b8d2cdc70c8600cd2a0fd7b94d7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 059/124] fix: limits of the land fraction gradient were
 ignored

---
 src/client/Downscaler/Gradient.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 393974e..8662b72 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -8,6 +8,8 @@ DownscalerGradient::DownscalerGradient(const Variable& iInputVariable, const Var
       mElevRadius(3),
       mMinElevGradient(Util::MV),
       mMaxElevGradient(Util::MV),
+      mMinLafGradient(Util::MV),
+      mMaxLafGradient(Util::MV),
       mLogTransform(false),
       mConstantElevGradient(Util::MV),
       mDefaultElevGradient(0),
@@ -378,6 +380,11 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
    }
    else {
       gradient = value / totalWeight;
+      // Check against minimum and maximum gradients
+      if(Util::isValid(mMinLafGradient) && gradient < mMinLafGradient)
+         gradient = mMinLafGradient;
+      if(Util::isValid(mMaxLafGradient) && gradient > mMaxLafGradient)
+         gradient = mMaxLafGradient;
    }
    return gradient;
 }
-- 
2.43.0


From cff504e2da819b5e7acc365b865c5cd471f775c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 060/124] fix: gradient downscaler crashed on unknown
 downscalers and numbers of weights

---
 src/client/Downscaler/Gradient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 8662b72..2ca5e61 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -48,6 +48,8 @@ DownscalerGradient::DownscalerGradient(const Variable& iInputVariable, const Var
    iOptions.getValue("averageNeighbourhood", mAverageNeighbourhood);
    iOptions.getValue("saveGradient", mSaveGradient);
    iOptions.getValue("downscaler", mDownscalerName);
+   if(mDownscalerName != "nearestNeighbour" && mDownscalerName != "bilinear")
+      Util::error("DownscalerGradient: downscaler must be 'nearestNeighbour' or 'bilinear'");
    iOptions.getValue("limit", mLimit);
    // mDownscaler = Downscaler::getScheme(downscalerName, iVariable, Options());
 
@@ -58,7 +60,8 @@ DownscalerGradient::DownscalerGradient(const Variable& iInputVariable, const Var
          mLafWeights.push_back(1.0/mLafSearchRadii.size());
       }
    }
-   assert(mLafSearchRadii.size() == mLafWeights.size());
+   if(mLafSearchRadii.size() != mLafWeights.size())
+      Util::error("DownscalerGradient: lafWeights must have one weight for each of lafSearchRadii");
    iOptions.check();
 }
 
-- 
2.43.0


From 9c1a700462cbdc785b4a7fa4db1cc2baee39f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 061/124] fix: bilinear downscaler crashed in functions that
 return nothing

---
 src/client/Downscaler/Bilinear.cpp | 4 ++--
 src/client/Downscaler/Bilinear.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index d5e91c3..5f60681 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -468,7 +468,7 @@ bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float
    return true;
 }
 
-bool DownscalerBilinear::getI(int I, bool isAbove, bool Iinc, int& I1, int& I2) {
+void DownscalerBilinear::getI(int I, bool isAbove, bool Iinc, int& I1, int& I2) {
 // Find out which Is to use
    if(isAbove) {
       if(Iinc) {
@@ -492,7 +492,7 @@ bool DownscalerBilinear::getI(int I, bool isAbove, bool Iinc, int& I1, int& I2)
    }
 }
 
-bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2) {
+void DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2) {
    // Find out which Js to use
    if(isRight) {
       if(Jinc) {
diff --git a/src/client/Downscaler/Bilinear.h b/src/client/Downscaler/Bilinear.h
index 588910c..e0e00f3 100644
--- a/src/client/Downscaler/Bilinear.h
+++ b/src/client/Downscaler/Bilinear.h
@@ -42,8 +42,8 @@ class DownscalerBilinear : public Downscaler {
       static bool calcParallelogram(float x, float y, float X1, float X2, float X3, float X4, float Y1, float Y2, float Y3, float Y4, float &t, float &s);
       static bool calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s);
       static bool calcST(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s);
-      static bool getI(int I, bool isAbove, bool Iinc, int& I1, int& I2);
-      static bool getJ(int J, bool isAbove, bool Jinc, int& J1, int& J2);
+      static void getI(int I, bool isAbove, bool Iinc, int& I1, int& I2);
+      static void getJ(int J, bool isAbove, bool Jinc, int& J1, int& J2);
    private:
       void downscaleCore(const File& iInput, File& iOutput) const;
       static float bilinearLimit;
-- 
2.43.0


From 569749f4d17e6c435169a9198630589642de4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 062/124] fix: gradient downscaler ignored gradients where all
 but one elevation are zero

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 2ca5e61..f0464e5 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -449,7 +449,7 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
       // Use model gradient if:
       // 1) sufficient elevation difference in neighbourhood
       // 2) regression parameters are stable enough
-      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff && meanXX != meanX*meanX) {
+      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff) {
          // Estimate lapse rate
          meanXY /= counter;
          meanX  /= counter;
-- 
2.43.0


From b578c616c5cf5e85bae6f88f956dea1208df9277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 063/124] fix: smart and gradient downscalers used values
 already changed when input and output are the same file

---
 src/client/Downscaler/Gradient.cpp | 5 +++--
 src/client/Downscaler/Smart.cpp    | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index f0464e5..e429238 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -92,9 +92,10 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
    getNearestNeighbour(iInput, iOutput, nearestI, nearestJ);
 
    for(int t = 0; t < nTime; t++) {
-      Field& ifield = *iInput.getField(mInputVariable, t);
+      // Copies, since the input and output fields can be the same
+      Field ifield = *iInput.getField(mInputVariable, t);
+      Field gfield = *iInput.getField(mElevGradientVariableName, t);
       Field& ofield = *iOutput.getField(mOutputVariable, t, true);
-      Field& gfield = *iInput.getField(mElevGradientVariableName, t);
 
       vec2 elevsInterp;
       vec2 lafsInterp;
diff --git a/src/client/Downscaler/Smart.cpp b/src/client/Downscaler/Smart.cpp
index a2b9e5c..306df69 100644
--- a/src/client/Downscaler/Smart.cpp
+++ b/src/client/Downscaler/Smart.cpp
@@ -25,7 +25,8 @@ void DownscalerSmart::downscaleCore(const File& iInput, File& iOutput) const {
    getSmartNeighbours(iInput, iOutput, nearestI, nearestJ);
 
    for(int t = 0; t < nTime; t++) {
-      Field& ifield = *iInput.getField(mInputVariable, t);
+      // A copy, since the input and output fields can be the same
+      Field ifield = *iInput.getField(mInputVariable, t);
       Field& ofield = *iOutput.getField(mOutputVariable, t, true);
 
       #pragma omp parallel for
-- 
2.43.0


From 1e47feb653c03717a39c5ec2b44dc7544c2ee99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 064/124] fix: bilinear downscaler crashed instead of refusing
 cells where no position can be computed

---
 src/client/Downscaler/Bilinear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 5f60681..79f7366 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -341,7 +341,8 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
       calcST(iLon, iLat, x0, x1, x2, x3, y0, y1, y2, y3, t, s);
    }
 
-   if(s > 1 + bilinearLimit || s < -bilinearLimit || t > 1 + bilinearLimit || t < -bilinearLimit) {
+   // Also true when s or t could not be computed
+   if(!(s <= 1 + bilinearLimit && s >= -bilinearLimit && t <= 1 + bilinearLimit && t >= -bilinearLimit)) {
       std::stringstream ss;
       ss << "Problem: " << s << " " << t << std::endl;
       ss << "coord: " << iLat << " " << iLon << std::endl;
-- 
2.43.0


From 31d10b0e50ba6e10a32ce72d3bff57113f40a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 065/124] fix: option minPrecip of the phase calibrator was
 ignored

---
 src/client/Calibrator/Phase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.cpp b/src/client/Calibrator/Phase.cpp
index fea6f41..6fec3c0 100644
--- a/src/client/Calibrator/Phase.cpp
+++ b/src/client/Calibrator/Phase.cpp
@@ -13,6 +13,7 @@ CalibratorPhase::CalibratorPhase(const Variable& iVariable, const Options& iOpti
    iOptions.getRequiredValue("precipitation", mPrecipitationVariable);
    iOptions.getValue("snowThreshold", mSnowThreshold);
    iOptions.getValue("rainThreshold", mRainThreshold);
+   iOptions.getValue("minPrecip", mMinPrecip);
    iOptions.check();
 }
 bool CalibratorPhase::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
-- 
2.43.0


From 517ded450e2d52b8b26e2a08af81c4eeb3405700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 066/124] fix: phase calibrator refused to run without a
 parameter file it does not use

---
 src/client/Calibrator/Phase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.h b/src/client/Calibrator/Phase.h
index a503a34..a04a8bf 100644
--- a/src/client/Calibrator/Phase.h
+++ b/src/client/Calibrator/Phase.h
@@ -9,6 +9,7 @@ class CalibratorPhase : public Calibrator {
       CalibratorPhase(const Variable& iVariable, const Options& iOptions);
       static std::string description(bool full=true);
       std::string name() const {return "phase";};
+      bool requiresParameterFile() const { return false;};
 
       //! Precipitation phase
       enum Phase {
-- 
2.43.0


From 81e1bc8c49d22815bcf4c0d40c524bc339450d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 067/124] fix: mask calibrator kept the points of earlier times
 when radii depend on time

---
 src/client/Calibrator/Mask.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Mask.cpp b/src/client/Calibrator/Mask.cpp
index 7143cfe..c7bff76 100644
--- a/src/client/Calibrator/Mask.cpp
+++ b/src/client/Calibrator/Mask.cpp
@@ -38,6 +38,7 @@ bool CalibratorMask::calibrateCore(File& iFile, const ParameterFile* iParameterF
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             if(t == 0 || iParameterFile->isTimeDependent()) {
+               isWithinRadius[i][j] = 0;
                Location loc(Util::MV, Util::MV, Util::MV);
                Location currLocation(lats[i][j], lons[i][j], elevs[i][j]);
                if(mUseNearestOnly) {
-- 
2.43.0


From 52126154698204c7725711796d65a05b8fa1756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 068/124] fix: dewpoint was the temperature where the relative
 humidity is 0

---
 src/client/Calibrator/DiagnoseHumidity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/Calibrator/DiagnoseHumidity.cpp b/src/client/Calibrator/DiagnoseHumidity.cpp
index c754650..2938221 100644
--- a/src/client/Calibrator/DiagnoseHumidity.cpp
+++ b/src/client/Calibrator/DiagnoseHumidity.cpp
@@ -113,6 +113,9 @@ bool CalibratorDiagnoseHumidity::calibrateCore(File& iFile, const ParameterFile*
 
 float CalibratorDiagnoseHumidity::computeDewpoint(float iTemperature, float iRelativeHumidity) {
    if(Util::isValid(iTemperature) && Util::isValid(iRelativeHumidity)) {
+      // No dewpoint is defined without humidity
+      if(iRelativeHumidity <= 0)
+         return Util::MV;
       // Taken from https://github.com/metno/wdb2ts
       float tempC = iTemperature - 273.15;
       float e = (iRelativeHumidity)*0.611*exp( (17.63 * tempC) / (tempC + 243.04) );
-- 
2.43.0


From f029a241e7d3eccb3a403d202fbfb6d3532505f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 069/124] fix: neighbourhood calibrator lost precision in sums
 over the whole field

---
 src/client/Calibrator/Neighbourhood.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/client/Calibrator/Neighbourhood.cpp b/src/client/Calibrator/Neighbourhood.cpp
index 324d29d..8e3caa8 100644
--- a/src/client/Calibrator/Neighbourhood.cpp
+++ b/src/client/Calibrator/Neighbourhood.cpp
@@ -80,8 +80,9 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
    int count_stat = 0;
    for(int e = 0; e < nEns; e++) {
       if(mFast && (mStatType == Util::StatTypeMean || mStatType == Util::StatTypeSum)) {
-         vec2 values;
-         vec2 counts;
+         // Sums over large fields need the precision of double
+         std::vector<std::vector<double> > values;
+         std::vector<std::vector<double> > counts;
          values.resize(nLat);
          counts.resize(nLat);
          for(int i = 0; i < nLat; i++) {
@@ -142,10 +143,10 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
                int j1 = std::min(nLon-1, j + radius);
                int i0 = i - radius - 1;
                int j0 = j - radius - 1;
-               float value11 = values[i1][j1];
-               float value00 = 0;
-               float value10 = 0;
-               float value01 = 0;
+               double value11 = values[i1][j1];
+               double value00 = 0;
+               double value10 = 0;
+               double value01 = 0;
                int count11 = counts[i1][j1];
                int count00 = 0;
                int count10 = 0;
@@ -166,7 +167,7 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
                   value01 = values[i0][j1];
                   count01 = counts[i0][j1];
                }
-               float value = value11 + value00 - value10 - value01;
+               double value = value11 + value00 - value10 - value01;
                int count = count11 + count00 - count10 - count01;
                if(count > 0) {
                   if(mStatType == Util::StatTypeMean) {
-- 
2.43.0


From 3b36aad1c42f273fb6d591a1b025486254322e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 070/124] fix: neighbourhood calibrator crashed on negative or
 missing radii in the parameter file

---
 src/client/Calibrator/Neighbourhood.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Neighbourhood.cpp b/src/client/Calibrator/Neighbourhood.cpp
index 8e3caa8..8e96ae6 100644
--- a/src/client/Calibrator/Neighbourhood.cpp
+++ b/src/client/Calibrator/Neighbourhood.cpp
@@ -75,6 +75,8 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
    int nLon = iInput.getNumX();
    if(iParameters != NULL) {
       radius = (*iParameters)[0];
+      if(radius < 0)
+         Util::error("CalibratorNeighbourhood: radius in the parameter file must be >= 0");
    }
 
    int count_stat = 0;
-- 
2.43.0


From 558b330b1d334f8163f2126fced74a222a78b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 071/124] fix: NetCDF parameter files were not closed when
 deleted

---
 src/client/ParameterFile/ParameterFile.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/ParameterFile/ParameterFile.h b/src/client/ParameterFile/ParameterFile.h
index cf130d3..952a0a8 100644
--- a/src/client/ParameterFile/ParameterFile.h
+++ b/src/client/ParameterFile/ParameterFile.h
@@ -16,6 +16,7 @@
 class ParameterFile : public Scheme {
    public:
       ParameterFile(const Options& iOptions, bool iIsNew=false);
+      virtual ~ParameterFile() {};
 
       //! Get the parameter valid for specified forecast timestep. This is an index, not an hour.
       //! @param iAllowNearestNeighbour Use the nearest neighbour if the location isn't in the set
-- 
2.43.0


From bcf7ec6856f7fa8cbae808256104ee3f711abf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 072/124] fix: sort calibrator did not sort members when others
 are NaN

---
 src/client/Calibrator/Sort.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/client/Calibrator/Sort.cpp b/src/client/Calibrator/Sort.cpp
index a7557d9..0971417 100644
--- a/src/client/Calibrator/Sort.cpp
+++ b/src/client/Calibrator/Sort.cpp
@@ -24,19 +24,17 @@ bool CalibratorSort::calibrateCore(File& iFile, const ParameterFile* iParameterF
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
-            std::vector<float> values = field(i,j);
-            std::sort(values.begin(), values.end());
-
             // Create a new array with all the missing values
             // at the end
             std::vector<float> missingLast(nEns, Util::MV);
             int counter = 0;
             for(int e = 0; e < nEns; e++) {
-               if(Util::isValid(values[e])) {
-                  missingLast[counter] = values[e];
+               if(Util::isValid(field(i,j,e))) {
+                  missingLast[counter] = field(i,j,e);
                   counter++;
                }
             }
+            std::sort(missingLast.begin(), missingLast.begin() + counter);
             for(int e = 0; e < nEns; e++) {
                field(i,j,e) = missingLast[e];
             }
-- 
2.43.0


From 88765180900f5b758864796f56433b01084fb4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 073/124] fix: looking for the nearest location in an empty
 parameter file crashed

---
 src/client/ParameterFile/ParameterFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index d130db7..e2aceee 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -140,6 +140,8 @@ Parameters ParameterFile::getParameters(int iTime, const Location& iLocation, bo
 }
 
 bool ParameterFile::getNearestLocation(int iTime, const Location& iLocation, Location& iNearestLocation) const {
+   if(mParameters.size() == 0)
+      return false;
    if(mParameters.size() == 1) {
       // One set of parameters for all locations
       LocationParameters::const_iterator it = mParameters.begin();
-- 
2.43.0


From 9e2e7564cd23d3b84c2bf01a04081e35b8e57ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 074/124] fix: the wind direction calibrator multiplied missing
 values and used missing factors

---
 src/client/Calibrator/WindDirection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/WindDirection.cpp b/src/client/Calibrator/WindDirection.cpp
index 9cfd3a1..889b685 100644
--- a/src/client/Calibrator/WindDirection.cpp
+++ b/src/client/Calibrator/WindDirection.cpp
@@ -46,7 +46,8 @@ bool CalibratorWindDirection::calibrateCore(File& iFile, const ParameterFile* iP
                float currDirection = direction(i,j,e);
                if(Util::isValid(currDirection)) {
                    float factor = getFactor(currDirection, parameters);
-                   wind(i,j,e) = factor*wind(i,j,e);
+                   if(Util::isValid(factor) && Util::isValid(wind(i,j,e)))
+                      wind(i,j,e) = factor*wind(i,j,e);
                }
             }
          }
-- 
2.43.0


From 1b05829e6fe880b335b09b05647938b42aab91fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 075/124] fix: the regression calibrator used the missing value
 indicator of a predictor as a value

---
 src/client/Calibrator/Regression.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Regression.cpp b/src/client/Calibrator/Regression.cpp
index 760b6a1..dac9853 100644
--- a/src/client/Calibrator/Regression.cpp
+++ b/src/client/Calibrator/Regression.cpp
@@ -69,11 +69,12 @@ bool CalibratorRegression::calibrateCore(File& iFile, const ParameterFile* iPara
                      // Accumulate a + b * var1 + c * var2 ...
                      for(int p = 0; p < parameters.size(); p++) {
                         float coeff = parameters[p];
-                        if(!Util::isValid(coeff)) {
+                        float value = (*fields[p])(i,j,e);
+                        if(!Util::isValid(coeff) || !Util::isValid(value)) {
                            total = Util::MV;
                            break;
                         }
-                        total += coeff*(*fields[p])(i,j,e);
+                        total += coeff*value;
                      }
                      (*field)(i,j,e)  = total;
                   }
-- 
2.43.0


From 8ed33d7e4ffc5fa5cbb778e3aaa3502fd623641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 076/124] fix: the gaussian calibrator used already calibrated
 neighbours

---
 src/client/Calibrator/Gaussian.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 8447000..8f1b176 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -32,6 +32,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
    // Loop over offsets
    for(int t = 0; t < nTime; t++) {
       Field& field = *iFile.getField(mVariable, t);
+      // Neighbourhoods must be based on the raw values, not on values already calibrated
+      const Field rawField = field;
 
       Parameters parametersGlobal;
       if(!iParameterFile->isLocationDependent())
@@ -55,7 +57,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                // Create a neighbourhood ensemble
                for(int ii = std::max(0, i-mNeighbourhoodSize); ii <= std::min(nLat-1, i+mNeighbourhoodSize); ii++) {
                   for(int jj = std::max(0, j-mNeighbourhoodSize); jj <= std::min(nLon-1, j+mNeighbourhoodSize); jj++) {
-                     float value = field(ii,jj,e);
+                     float value = rawField(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
                         total2 += value*value;
-- 
2.43.0


From de320cb49db20c92509061ae60db3cb9a4333c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 077/124] fix: the gaussian calibrator left some ensembles with
 equal members uncalibrated

---
 src/client/Calibrator/Gaussian.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 8f1b176..197c852 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -75,7 +75,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                float ensSpread = Util::MV;
                if(counter > 0) {
                   ensMean = total / counter;
-                  ensSpread = sqrt(total2/counter - (ensMean*ensMean));
+                  // Round-off can make the variance of nearly equal values negative
+                  ensSpread = sqrt(std::max(0.0f, total2/counter - (ensMean*ensMean)));
                }
 
                // Calibrate
-- 
2.43.0


From b4ddb5f9cff064dc61f47eab0b3842d3b638365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 078/124] fix: the zaga calibrator used already calibrated
 neighbours and accumulations

---
 src/client/Calibrator/Zaga.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 5060da8..7d1b944 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -60,9 +60,10 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
       timeWindow = 6;
    }
 
-   std::vector<FieldPtr> precips;
+   // Keep a copy of the raw values, since the fields are overwritten below
+   std::vector<Field> precips;
    for(int t = 0; t < nTime; t++) {
-      precips.push_back(iFile.getField(mVariable, t));
+      precips.push_back(*iFile.getField(mVariable, t));
    }
 
    // Loop over offsets
@@ -74,6 +75,8 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
       if(!iParameterFile->isLocationDependent())
          parametersGlobal = iParameterFile->getParameters(t);
 
+      FieldPtr precipField = iFile.getField(mVariable, t);
+
       // Load the POP output field, if needed
       FieldPtr pop;
       if(mPopVariable != "") {
@@ -121,7 +124,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                         float total = 0;
                         // Accumulate over the time window, if necessary
                         for(int tt = t-timeWindow + 1; tt <= t; tt++) {
-                           Field& precip = *precips[tt];
+                           const Field& precip = precips[tt];
 
                            float value = precip(ii,jj,e);
                            if(Util::isValid(total) && Util::isValid(value)) {
@@ -143,7 +146,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                      }
                   }
                }
-               Field& precip = *precips[t];
+               Field& precip = *precipField;
                const std::vector<float>& precipRaw = precip(i,j);
 
                // Only calibrate the ensemble if all members are available. Otherwise
-- 
2.43.0


From e8c721b84884dd1cb703cee2939015087f365d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 079/124] fix: the zaga calibrator crashed for 6h accumulations
 without a pop variable

---
 src/client/Calibrator/Zaga.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 7d1b944..2890049 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -105,9 +105,11 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                parameters = parametersGlobal;
 
             // for Pop6h, the first few hours are undefined, since we cannot do a 6h accumulation
-            if(mPopVariable != "" && t < startTime) {
-               for(int e = 0; e < nEns; e++) {
-                  (*pop)(i,j,e) = Util::MV;
+            if(t < startTime) {
+               if(mPopVariable != "") {
+                  for(int e = 0; e < nEns; e++) {
+                     (*pop)(i,j,e) = Util::MV;
+                  }
                }
             }
             else {
-- 
2.43.0


From 1ca40ffbdbf5318532a65a8badffab6cb064a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 080/124] fix: the bct calibrator ignored its option maxEnsMean

---
 src/client/Calibrator/Bct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Bct.cpp b/src/client/Calibrator/Bct.cpp
index c6d018b..3f76838 100644
--- a/src/client/Calibrator/Bct.cpp
+++ b/src/client/Calibrator/Bct.cpp
@@ -9,6 +9,7 @@
 CalibratorBct::CalibratorBct(const Variable& iVariable, const Options& iOptions):
       Calibrator(iVariable, iOptions),
       mMaxEnsMean(100) {
+   iOptions.getValue("maxEnsMean", mMaxEnsMean);
    iOptions.check();
 }
 
-- 
2.43.0


From bcc32116d3c76fa1e215cd18de95cc92603db926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 081/124] fix: an empty parameter file did not count as having
 no parameters

---
 src/client/ParameterFile/ParameterFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index e2aceee..6d86e85 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -245,6 +245,9 @@ bool ParameterFile::isTimeDependent() const {
 }
 
 int ParameterFile::getNumParameters() const {
+   if(mParameters.size() == 0)
+      return 0;
+
    int size = Util::MV;
 
    LocationParameters::const_iterator itLoc;
-- 
2.43.0


From a0742b7c157a6974efad17cc40bf5809ef596cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 082/124] fix: NetCDF files with more members than the forecast
 made the program abort

---
 src/client/File/Netcdf.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index f1f6af0..3a207d4 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -299,8 +299,10 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
    FieldPtr field = getEmptyField();
    std::vector<int> countVector(count, count + dims.size());
    int nEns = 1;
-   if(Util::isValid(ensPos))
-      nEns = count[ensPos];
+   if(Util::isValid(ensPos)) {
+      // The number of members may have been set to something else than what the file has
+      nEns = std::min((int) count[ensPos], getNumEns());
+   }
    int nY = 1;
    if(Util::isValid(yPos))
       nY = count[yPos];
@@ -439,9 +441,6 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       assert(hasVariableCore(variable));
       int var = getVar(variableName);
       float MV = getMissingValue(var); // The output file's missing value indicator
-      size_t size = 1*1*mNEns*getNumY()*getNumX();
-      float* values = new float[size];
-
       std::vector<int> dims = getDims(var);
       size_t count[dims.size()];
       int ensPos = Util::MV;
@@ -467,6 +466,10 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
             xPos = d;
          }
       }
+      size_t size = 1;
+      for(int d = 0; d < dims.size(); d++)
+         size *= count[d];
+      float* values = new float[size];
 
       for(int t = 0; t < getNumTime(); t++) {
          size_t start[dims.size()];
@@ -501,7 +504,10 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                      if(Util::isValid(xPos))
                         indices[xPos] = x;
                      int i = getIndex(countVector, indices);
-                     float value = (*field)(y, x, e);
+                     // The file can have more members than have been set
+                     float value = Util::MV;
+                     if(e < field->getNumEns())
+                        value = (*field)(y, x, e);
                      if(Util::isValid(MV) && !Util::isValid(value)) {
                         // Field has missing value indicator and the value is missing
                         // Save values using the file's missing indicator value
-- 
2.43.0


From fc1c887e1201ea0c29d81709f7c913680a21a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 083/124] fix: NetCDF fields that could not be read were filled
 with arbitrary values

---
 src/client/File/Netcdf.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 3a207d4..95c938e 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -244,6 +244,9 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
       count[d] = 1;
       start[d] = 0;
       if(dim == mTimeDim) {
+         // More times may have been set than what the file has
+         if(iTime >= getDimSize(dim))
+            return getEmptyField();
          start[d] = iTime;
       }
       else if(dim == mEnsDim) {
@@ -290,7 +293,10 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
       size *= count[d];
    }
    float* values = new float[size];
-   nc_get_vara_float(mFile, var, start, count, values);
+   int status = nc_get_vara_float(mFile, var, start, count, values);
+   // Values that are too large for a float become infinite, and are thereby missing
+   if(status != NC_ERANGE)
+      handleNetcdfError(status, "could not read variable '" + variableName + "'");
 
    float MV = getMissingValue(var);
    float offset = getOffset(var);
-- 
2.43.0


From 85dd7eb3c7149db913d1dcfab2550eb2eb88eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 084/124] fix: a variable's level was ignored when writing
 NetCDF files

---
 src/client/File/Netcdf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 95c938e..66b0a44 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -479,8 +479,12 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
 
       for(int t = 0; t < getNumTime(); t++) {
          size_t start[dims.size()];
-         for(int d = 0; d < dims.size(); d++)
+         for(int d = 0; d < dims.size(); d++) {
             start[d] = 0;
+            bool isLevel = dims[d] != mTimeDim && dims[d] != mEnsDim && dims[d] != mYDim && dims[d] != mXDim;
+            if(isLevel && Util::isValid(variable.level()) && getDimSize(dims[d]) > 1)
+               start[d] = variable.level();
+         }
          if(Util::isValid(timePos))
             start[timePos] = t;
 
-- 
2.43.0


From 35feb82a1b839b7a8d621b8f586811d33a1a8bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 085/124] fix: values were truncated instead of rounded when
 packed into integers

---
 src/client/File/Netcdf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 66b0a44..3614a9e 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -447,6 +447,10 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       assert(hasVariableCore(variable));
       int var = getVar(variableName);
       float MV = getMissingValue(var); // The output file's missing value indicator
+      nc_type type;
+      int status = nc_inq_vartype(mFile, var, &type);
+      handleNetcdfError(status, "could not get type of variable " + variableName);
+      bool isPacked = type != NC_FLOAT && type != NC_DOUBLE;
       std::vector<int> dims = getDims(var);
       size_t count[dims.size()];
       int ensPos = Util::MV;
@@ -525,6 +529,9 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                      }
                      else {
                         value = (value - offset)/scale;
+                        // The library truncates when converting to integers
+                        if(isPacked)
+                           value = floor(value + 0.5);
                      }
                      values[i] = value;
                   }
-- 
2.43.0


From 825930cc8ec9003efb05fae612e508c1c5c06dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 086/124] fix: NetCDF files with one horizontal dimension and
 no altitude could not be written

---
 src/client/File/Netcdf.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 3614a9e..c4f29b2 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -754,10 +754,14 @@ void FileNetcdf::defineAltitude() {
       indexX = 1;
    }
 
+   int numHorizontalDims = Util::isValid(mYDim) + Util::isValid(mXDim);
    int dims[2];
    int dLat = mYDim;
    int dLon = mXDim;
-   if(indexY < indexX) {
+   if(numHorizontalDims == 1) {
+      dims[0] = Util::isValid(mYDim) ? mYDim : mXDim;
+   }
+   else if(indexY < indexX) {
       dims[0]  = dLat;
       dims[1]  = dLon;
    }
@@ -766,7 +770,7 @@ void FileNetcdf::defineAltitude() {
       dims[1]  = dLat;
    }
    int var = Util::MV;
-   int status = nc_def_var(mFile, "altitude", NC_FLOAT, 2, dims, &var);
+   int status = nc_def_var(mFile, "altitude", NC_FLOAT, numHorizontalDims, dims, &var);
    handleNetcdfError(status, "could not define altitude");
 }
 
-- 
2.43.0


From d09da3eaf44307da2d62a45b0aedf67982f475ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 087/124] fix: times were not written to the time variable
 specified by timeVar

---
 src/client/File/Netcdf.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index c4f29b2..c7d81ae 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1136,10 +1136,9 @@ std::string FileNetcdf::getGlobalAttribute(std::string iName) {
 }
 
 void FileNetcdf::defineTimes() {
-   if(!hasVar("time")) {
+   if(!Util::isValid(mTimeVar)) {
       if(Util::isValid(mTimeDim)) {
-         int id;
-         int status = nc_def_var(mFile, "time", NC_DOUBLE, 1, &mTimeDim, &id);
+         int status = nc_def_var(mFile, "time", NC_DOUBLE, 1, &mTimeDim, &mTimeVar);
          handleNetcdfError(status, "creating time variable");
       }
       else {
@@ -1149,7 +1148,7 @@ void FileNetcdf::defineTimes() {
          handleNetcdfError(status, "creating time variable");
       }
    }
-   int vTime = getVar("time");
+   int vTime = mTimeVar;
    setAttribute(vTime, "long_name", "time");
    setAttribute(vTime, "standard_name", "time");
    setAttribute(vTime, "units", "seconds since 1970-01-01 00:00:00 +00:00");
@@ -1175,7 +1174,7 @@ void FileNetcdf::writeTimes() {
       if(!Util::isValid(times[i]))
          times[i] = NC_FILL_FLOAT;
    }
-   int vTime = getVar("time");
+   int vTime = mTimeVar;
    double timesArr[getNumTime()];
    for(int t = 0; t < getNumTime(); t++) {
       timesArr[t] = times[t];
-- 
2.43.0


From 277cbfb2099883604994a8c5b75642e8cedfc120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 088/124] fix: several times were written on top of each other
 in NetCDF files without a time dimension

---
 src/client/File/Netcdf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index c7d81ae..751e8d3 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1148,6 +1148,11 @@ void FileNetcdf::defineTimes() {
          handleNetcdfError(status, "creating time variable");
       }
    }
+   if(!Util::isValid(mTimeDim) && getNumTime() > 1) {
+      std::stringstream ss;
+      ss << "Cannot write " << getNumTime() << " times to '" << getFilename() << "', since its time variable does not have a dimension";
+      Util::error(ss.str());
+   }
    int vTime = mTimeVar;
    setAttribute(vTime, "long_name", "time");
    setAttribute(vTime, "standard_name", "time");
-- 
2.43.0


From 470524447e8648acbcafb90021d5684ec5500360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 089/124] fix: missing values in one-dimensional altitudes were
 used as altitudes

---
 src/client/File/Netcdf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 751e8d3..7c455c4 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1269,6 +1269,8 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
                value = values[j];
             else
                value = values[i];
+            if(value == MV)
+               value = Util::MV;
             grid[i][j] = value;
          }
       }
-- 
2.43.0


From 4bcf631f57b70e3e136f5b798b87a90d34686374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 090/124] fix: changing one variable of a text file changed all
 of them

---
 src/client/File/Text.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index eb9790d..9e3b1d3 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -125,7 +125,17 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
 }
 
 FieldPtr FileText::getFieldCore(const Variable& iVariable, int iTime) const {
-   return mLocalFields[iTime];
+   // Return a copy, since the field can be changed and other variables share the same values
+   FieldPtr field = getEmptyField();
+   if(iTime < mLocalFields.size()) {
+      const Field& local = *mLocalFields[iTime];
+      int nEns = std::min(getNumEns(), local.getNumEns());
+      for(int i = 0; i < getNumY(); i++) {
+         for(int e = 0; e < nEns; e++)
+            (*field)(i,0,e) = local(i,0,e);
+      }
+   }
+   return field;
 }
 
 void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
-- 
2.43.0


From 60b3fa565018f70970201db100a187439d5a26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 091/124] fix: text files were written without locations and
 could not be read back

---
 src/client/File/Text.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index 9e3b1d3..b95ed8a 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -148,12 +148,23 @@ void FileText::writeCore(std::vector<Variable> iVariables, std::string iMessage)
       ofs.precision(0);
       FieldPtr field = getField(iVariables[0], i);
       if(field != NULL) {
-         ofs << (long) getTimes()[i];
-         ofs.precision(2);
-         for(int e = 0; e < getNumEns(); e++) {
-            ofs << std::fixed << " " << (*field)(0,0,e);
+         vec2 lats = getLats();
+         vec2 lons = getLons();
+         vec2 elevs = getElevs();
+         for(int y = 0; y < getNumY(); y++) {
+            ofs << (long) getTimes()[i];
+            ofs.precision(6);
+            ofs << std::fixed << " " << lats[y][0] << " " << lons[y][0];
+            ofs.precision(2);
+            ofs << " " << elevs[y][0];
+            for(int e = 0; e < getNumEns(); e++) {
+               float value = (*field)(y,0,e);
+               if(!Util::isValid(value))
+                  value = Util::MV;
+               ofs << " " << value;
+            }
+            ofs << std::endl;
          }
-         ofs << std::endl;
       }
    }
    ofs.close();
-- 
2.43.0


From caf752ad5d70eabb96f5d36da4a2d309a9f336aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 092/124] fix: text files that are missing or empty made the
 program crash

---
 src/client/File/Text.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index b95ed8a..33d4833 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -11,7 +11,7 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
 
    std::ifstream ifs(getFilename().c_str(), std::ifstream::in);
    if(!ifs.good()) {
-      return;
+      Util::error("Could not open text file '" + getFilename() + "'");
    }
    std::set<int> timesSet;
    std::set<Location> locationsSet;
@@ -73,6 +73,10 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
    }
    ifs.close();
 
+   if(locationsSet.size() == 0) {
+      Util::error("No data in text file '" + getFilename() + "'");
+   }
+
    std::vector<double> times(timesSet.begin(), timesSet.end());
    std::vector<Location> locations(locationsSet.begin(), locationsSet.end());
    std::sort(times.begin(), times.end());
-- 
2.43.0


From a5a37a7e9f872a1ec2c172f5d4d069783f6090e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 093/124] fix: rows of a point file were looked up by index
 instead of by time

---
 src/client/File/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index d547d69..ac3fd04 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -105,7 +105,7 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
          double time;
          ss >> time;
 
-         if(time == iTime) {
+         if(time == getTimes()[iTime]) {
             double value;
             int e = 0;
             while(ss >> value) {
-- 
2.43.0


From 419be48051e535bc4ca64596c9bf255053168bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 094/124] fix: a point file without times was not reported

---
 src/client/File/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index ac3fd04..0202372 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -71,7 +71,7 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
 
    // Otherwise get the time or ensemble dimension from options
    iOptions.getValue("ens", mNEns);
-   int numTimes;
+   int numTimes = times.size() > 0 ? (int) times.size() : (int) Util::MV;
    if(iOptions.getValue("time", numTimes)) {
       times.clear();
       // Empty file, probably used as output only
-- 
2.43.0


From ee2b85fc9e2beb84536294787259ab20e463c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 095/124] fix: missing values were written to point files as
 values that cannot be read

---
 src/client/File/Point.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 0202372..3f6c029 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -144,7 +144,10 @@ void FilePoint::writeCore(std::vector<Variable> iVariables, std::string iMessage
          ofs << (long) getTimes()[i];
          ofs.precision(2);
          for(int e = 0; e < getNumEns(); e++) {
-            ofs << std::fixed << " " << (*field)(0,0,e);
+            float value = (*field)(0,0,e);
+            if(!Util::isValid(value))
+               value = Util::MV;
+            ofs << std::fixed << " " << value;
          }
          ofs << std::endl;
       }
-- 
2.43.0


From 7b3bdbe7fcd40457f8220f30ac0d318bfa340756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 096/124] fix: QNH messages for times outside the forecast made
 the program crash

---
 src/client/File/NorcomQnh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/File/NorcomQnh.cpp b/src/client/File/NorcomQnh.cpp
index 02fe294..fadc151 100644
--- a/src/client/File/NorcomQnh.cpp
+++ b/src/client/File/NorcomQnh.cpp
@@ -88,6 +88,9 @@ void FileNorcomQnh::writeCore(std::vector<Variable> iVariables, std::string iMes
       Util::warning("No variables to write");
       return;
    }
+   if(mStartTime < 0 || mEndTime >= getNumTime()) {
+      Util::error("FileNorcomQnh: 'startTime' and 'endTime' must be within the available times");
+   }
    Variable variable = iVariables[0];
    if(iVariables.size() > 1) {
       std::stringstream ss;
-- 
2.43.0


From fb2c0cdda011ef689e0484d651f5558b2f3537ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 097/124] fix: the last row of text and point files was ignored
 if it did not end with a newline

---
 src/client/File/Point.cpp | 14 ++++++--------
 src/client/File/Text.cpp  |  7 +++----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 3f6c029..430ba28 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -52,10 +52,9 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
    // Determine time and ensemble dimension if possible
    std::ifstream ifs(getFilename().c_str());
    if(ifs.good()) {
-      while(ifs.good()) {
-         char line[10000];
-         ifs.getline(line, 10000, '\n');
-         if(ifs.good() && line[0] != '#') {
+      std::string line;
+      while(std::getline(ifs, line)) {
+         if(line[0] != '#') {
             std::stringstream ss(line);
             double time;
             ss >> time;
@@ -97,10 +96,9 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
    FieldPtr field = getEmptyField();
 
    int row = 0;
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
          std::stringstream ss(line);
          double time;
          ss >> time;
diff --git a/src/client/File/Text.cpp b/src/client/File/Text.cpp
index 33d4833..2febee7 100644
--- a/src/client/File/Text.cpp
+++ b/src/client/File/Text.cpp
@@ -17,10 +17,9 @@ FileText::FileText(std::string iFilename, const Options& iOptions) :
    std::set<Location> locationsSet;
    std::map<int, std::map<Location, std::vector<float> > > values;
    mNEns = Util::MV;
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
          std::stringstream ss(line);
          // Loop over each value
          std::vector<float> currValues;
-- 
2.43.0


From c6e15bc2754ec6db6baab097d9482561f220a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 098/124] fix: times of a point file that had not been read
 were lost when it was written

---
 src/client/File/Point.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index 430ba28..b1c526a 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -130,6 +130,11 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
 }
 
 void FilePoint::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
+   // Read all fields first, since opening the file for writing removes its contents
+   if(iVariables.size() > 0) {
+      for(int i = 0; i < getNumTime(); i++)
+         getField(iVariables[0], i);
+   }
    std::ofstream ofs(getFilename().c_str());
    if(iVariables.size() == 0) {
       Util::warning("No variables to write");
-- 
2.43.0


From c586da5360112e6cfdccc72fb0f803b07986a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 099/124] fix: missing values were packed and unpacked when a
 file's fill value is -999 or NaN

---
 src/client/File/Netcdf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 7c455c4..a2a6e5e 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -327,7 +327,7 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
                indices[xPos] = x;
             int i = getIndex(countVector, indices);
             float value = values[i];
-            if(Util::isValid(MV) && value == MV) {
+            if(value == MV) {
                // Field has missing value indicator and the value is missing
                // Save values using our own internal missing value indicator
                value = Util::MV;
@@ -522,7 +522,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                      float value = Util::MV;
                      if(e < field->getNumEns())
                         value = (*field)(y, x, e);
-                     if(Util::isValid(MV) && !Util::isValid(value)) {
+                     if(!Util::isValid(value)) {
                         // Field has missing value indicator and the value is missing
                         // Save values using the file's missing indicator value
                         value = MV;
@@ -823,7 +823,7 @@ void FileNetcdf::writeAltitude() const {
    for(int i = 0; i < getNumY(); i++) {
       for(int j = 0; j < getNumX(); j++) {
          float elev = elevs[i][j];
-         if(Util::isValid(MV) && !Util::isValid(elev))
+         if(!Util::isValid(elev))
             elev = MV;
          // Latitude dimension is ordered first
          if(indexY < indexX) {
-- 
2.43.0


From ad21076626fd1dcb3131dfe59e23ed6cbc44dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 100/124] fix: bilinear downscaling of a file onto itself used
 values it had already replaced

---
 src/client/Downscaler/Bilinear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 79f7366..afc29c0 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -22,7 +22,8 @@ void DownscalerBilinear::downscaleCore(const File& iInput, File& iOutput) const
    Downscaler::getNearestNeighbour(iInput, iOutput, nearestI, nearestJ);
 
    for(int t = 0; t < nTime; t++) {
-      Field& ifield = *iInput.getField(mInputVariable, t);
+      // A copy, since the input and output fields can be the same
+      Field ifield = *iInput.getField(mInputVariable, t);
       Field& ofield = *iOutput.getField(mOutputVariable, t, true);
       downscaleField(ifield, ofield, ilats, ilons, olats, olons, nearestI, nearestJ);
    }
-- 
2.43.0


From dfb36dd396a5ea8a3bddf88f08ec99c5ca0cfa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 101/124] fix: cross-validated kriging left out the wrong
 station and shared its matrix between threads

---
 src/client/Calibrator/Kriging.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 17d88ff..3adff2f 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -293,6 +293,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                continue;
 
             // Don't use the nearest station when cross validating
+            vec2 cvInverse;
             float maxCovar = Util::MV;
             int ImaxCovar = Util::MV;
             if(mCrossValidate) {
@@ -303,14 +304,17 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                   }
                }
                currS[ImaxCovar] = 0;
+               // The index among all stations, not just the nearby ones
+               ImaxCovar = currI[ImaxCovar];
                vec2 cvMatrix = matrix;
-               for(int ii = 0; ii < currN; ii++) {
+               for(int ii = 0; ii < N; ii++) {
                   cvMatrix[ImaxCovar][ii] = 0;
                   cvMatrix[ii][ImaxCovar] = 0;
                }
                cvMatrix[ImaxCovar][ImaxCovar] = 1;
-               inverse = Util::inverse(cvMatrix);
+               cvInverse = Util::inverse(cvMatrix);
             }
+            const vec2& currInverse = mCrossValidate ? cvInverse : inverse;
 
             // Compute weights (matrix-vector product)
             std::vector<float> weights;
@@ -319,7 +323,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Only loop over non-zero values in the vector
                for(int jj = 0; jj < currN; jj++) {
                   int JJ = currI[jj];
-                  weights[ii] += inverse[ii][JJ] * currS[jj];
+                  weights[ii] += currInverse[ii][JJ] * currS[jj];
                }
             }
             // Set the weight of the nearest location to 0 when cross-validating
-- 
2.43.0


From 1a09073dbc817c2550a6322434c8147f446705d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 102/124] fix: kriging with operator=divide did not reconstruct
 the divisor

---
 src/client/Calibrator/Kriging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 3adff2f..8dccccc 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -348,7 +348,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(mOperator == Util::OperatorMultiply)
                   finalBias = finalBias + 1;
                else if(mOperator == Util::OperatorDivide)
-                  finalBias = finalBias - 1;
+                  finalBias = finalBias + 1;
 
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
-- 
2.43.0


From 216450205a41bb523deeefe91f6501f453c22bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 103/124] fix: the weights of the auxiliary variable in kriging
 accumulated over the ensemble members

---
 src/client/Calibrator/Kriging.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 8dccccc..6879c70 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -355,31 +355,32 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                   float rawValue = (*field)(i,j,e);
 
                   // Adjust bias based on auxillary weight
+                  float memberBias = finalBias;
                   if(mAuxVariable != "") {
                      float weight = auxWeights[i][j][e][t];
                      if(mOperator == Util::OperatorAdd || mOperator == Util::OperatorSubtract) {
-                        finalBias = finalBias * weight;
+                        memberBias = finalBias * weight;
                      }
                      else {
-                        finalBias = pow(finalBias, weight);
+                        memberBias = pow(finalBias, weight);
                      }
                   }
 
                   if(mOperator == Util::OperatorAdd) {
-                     (*field)(i,j,e) += finalBias;
+                     (*field)(i,j,e) += memberBias;
                   }
                   else if(mOperator == Util::OperatorSubtract) {
-                     (*field)(i,j,e) -= finalBias;
+                     (*field)(i,j,e) -= memberBias;
                   }
                   else if(mOperator == Util::OperatorMultiply) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) *= finalBias;
+                     (*field)(i,j,e) *= memberBias;
                   }
                   else if(mOperator == Util::OperatorDivide) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) /= finalBias;
+                     (*field)(i,j,e) /= memberBias;
                   }
                   else {
                      Util::error("Unrecognized operator in CalibratorKriging");
-- 
2.43.0


From 11afde6a77087d639b6f14d61635a3cdc95471d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 104/124] fix: kriging turned missing values into numbers

---
 src/client/Calibrator/Kriging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 6879c70..f02a412 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -353,6 +353,8 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
                   float rawValue = (*field)(i,j,e);
+                  if(!Util::isValid(rawValue))
+                     continue;
 
                   // Adjust bias based on auxillary weight
                   float memberBias = finalBias;
-- 
2.43.0


From 78e4334bf91e0aeb1300f43d6d61ff04a31f9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 105/124] fix: kriging treated stations without elevation as
 correlated by -999

---
 src/client/Calibrator/Kriging.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index f02a412..3f3b74c 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -203,7 +203,9 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
          // Improve conditioning of matrix when you have two or more stations
          // that are very close
          float factor = 0.414 / 0.5;
-         float R = calcCovar(iloc, jloc)*factor;
+         float covar = calcCovar(iloc, jloc);
+         // Stations with missing information are not correlated with others
+         float R = Util::isValid(covar) ? covar*factor : 0;
          // Store the number in both halves
          matrix[ii][jj] = R;
          matrix[jj][ii] = R;
-- 
2.43.0


From 89edcf6004cc5a51c7f0a743407b5ec3a59d915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 106/124] fix: the coastal calibrator used values it had
 already replaced

---
 src/client/Calibrator/Coastal.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 7242a86..28c54cf 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -37,7 +37,9 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
       Parameters parametersGlobal;
       if(!iParameterFile->isLocationDependent())
           parametersGlobal = iParameterFile->getParameters(t);
-      const FieldPtr field = iFile.getField(mVariable, t);
+      const FieldPtr output = iFile.getField(mVariable, t);
+      // A copy, since neighbouring values are needed after they have been replaced
+      const Field field = *output;
 
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
@@ -52,17 +54,17 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                float upperValue = Util::MV;
                float minLaf = 2;
                float maxLaf = -1;
-               float nearestNeighbour = (*field)(i,j,e);
+               float nearestNeighbour = field(i,j,e);
                // Find the range within a neighbourhood
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
                      if(currLaf < minLaf) {
-                        lowerValue = (*field)(ii,jj,e);
+                        lowerValue = field(ii,jj,e);
                         minLaf = currLaf;
                      }
                      if(currLaf > maxLaf) {
-                        upperValue = (*field)(ii,jj,e);
+                        upperValue = field(ii,jj,e);
                         maxLaf = currLaf;
                      }
                   }
@@ -85,7 +87,7 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                else
                   value = a + b * lowerValue + c * gradient;
                assert(Util::isValid(value));
-               (*field)(i,j,e) = value;
+               (*output)(i,j,e) = value;
             }
          }
       }
-- 
2.43.0


From 3e8d1f2f5c9727b6eae46bad7a0d8e52552e12b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 107/124] fix: missing values and land fractions aborted the
 coastal calibrator or became numbers

---
 src/client/Calibrator/Coastal.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 28c54cf..bca1156 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -59,6 +59,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
+                     if(!Util::isValid(currLaf))
+                        continue;
                      if(currLaf < minLaf) {
                         lowerValue = field(ii,jj,e);
                         minLaf = currLaf;
@@ -78,15 +80,11 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                float gradient = 0;
                if(Util::isValid(lowerValue) && Util::isValid(upperValue) && (maxLaf - minLaf > mMinLafDiff))
                   gradient = (upperValue - lowerValue) / (maxLaf - minLaf);
-               assert(Util::isValid(gradient));
-               assert(Util::isValid(nearestNeighbour));
 
                float value = Util::MV;
-               if(mUseNN)
-                  value = a + b * nearestNeighbour + c * gradient;
-               else
-                  value = a + b * lowerValue + c * gradient;
-               assert(Util::isValid(value));
+               float base = mUseNN ? nearestNeighbour : lowerValue;
+               if(Util::isValid(a) && Util::isValid(b) && Util::isValid(c) && Util::isValid(base))
+                  value = a + b * base + c * gradient;
                (*output)(i,j,e) = value;
             }
          }
-- 
2.43.0


From db483acaa2d7a93e8f4056eefd5476aa298162d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 108/124] fix: missing elevations entered the correlations of
 the oi calibrator as -999

---
 src/client/Calibrator/Oi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index a6c3c17..9f65d43 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -258,7 +258,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
       if(!Util::isValid(gridSize) || (X > 0 && X < nX - 1 && Y > 0 && Y < nY - 1)) {
          if(Util::isValid(gObs[i])) {
             // Check if the elevation of the station roughly matches the reference grid elevation
-            bool hasValidElev = !Util::isValid(mMaxElevDiff) || Util::isValid(gLocations[i].elev());
+            bool hasValidElev = !Util::isValid(mMaxElevDiff) || (Util::isValid(gLocations[i].elev()) && Util::isValid(elevs[Y][X]));
             if(Util::isValid(mMaxElevDiff) && hasValidElev) {
                float elevDiff = abs(gLocations[i].elev() - elevs[Y][X]);
                hasValidElev = elevDiff < mMaxElevDiff;
@@ -459,7 +459,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                int index = lLocIndices0[i];
                float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                float vdist = Util::MV;
-               if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+               if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                   vdist = gLocations[index].elev() - elev;
                float lafdist = 0;
                if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -576,7 +576,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                   lR(i, i) = gCi[index];
                   float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                   float vdist = Util::MV;
-                  if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+                  if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                      vdist = gLocations[index].elev() - elev;
                   float lafdist = 0;
                   if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -587,7 +587,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      int index_j = lLocIndices[j];
                      float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), gLocations[index_j].lat(), gLocations[index_j].lon(), true);
                      float vdist = Util::MV;
-                     if(Util::isValid(gLocations[index].elev() && Util::isValid(gLocations[index_j].elev())))
+                     if(Util::isValid(gLocations[index].elev()) && Util::isValid(gLocations[index_j].elev()))
                         vdist = gLocations[index].elev() - gLocations[index_j].elev();
                            float lafdist = 0;
                      if(Util::isValid(gLafs[index]) && Util::isValid(laf))
-- 
2.43.0


From 6e735cedf04aafc47b12d56d3ab76fce432618e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 109/124] fix: the oi calibrator aborted in ensemble mode when
 the parameter file has observations only

---
 src/client/Calibrator/Oi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 9f65d43..870db55 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -680,7 +680,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
             else {
                // Compute Rinv
                mattype Rinv(lS, lS, arma::fill::zeros);
-               if(numParameters == 2) {
+               if(numParameters <= 2) {
                   for(int i = 0; i < lS; i++) {
                      int index = lLocIndices[i];
                      Rinv(i, i) = lRhos[i] / (mSigma * mSigma * gCi[index]);
-- 
2.43.0


From d5753ce7aac43830f922076adabbe10b07a81eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 110/124] fix: the oi calibrator limited the increments of a
 member by the innovations of others

---
 src/client/Calibrator/Oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 870db55..40584a9 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -939,8 +939,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      if(!mExtrapolate) {
                         // Don't allow a final increment that is larger than any increment
                         // at station points
-                        float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                        float minInc = arma::min(lObs - (lY[e] + lYhat));
+                        float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                        float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                         if(x == mX && y == mY) {
                            std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                         }
-- 
2.43.0


From b5f8421059bff594ac7ce9b238532ae975331ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 111/124] fix: the oi calibrator used members it does not
 update in the ensemble mean

---
 src/client/Calibrator/Oi.cpp | 39 +++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 40584a9..b569bc7 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -376,6 +376,24 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          }
       }
 
+      // Calculate number of valid members
+      int nValidEns = 0;
+      std::vector<int> validEns;
+      for(int e = 0; e < nEns; e++) {
+         int numInvalid = 0;
+         for(int x = 0; x < nX; x++) {
+            for(int y = 0; y < nY; y++) {
+               float value = (*field)(y, x, e);
+               if(!Util::isValid(value))
+                  numInvalid++;
+            }
+         }
+         if(numInvalid == 0) {
+            validEns.push_back(e);
+            nValidEns++;
+         }
+      }
+
       // Compute Y
       vec2 gY(gS);
       std::vector<float> gYhat(gS);
@@ -391,7 +409,9 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          }
          float total = 0;
          int count = 0;
-         for(int e = 0; e < nEns; e++) {
+         for(int ee = 0; ee < nValidEns; ee++) {
+            // Only use the members that are updated
+            int e = validEns[ee];
             float value = (*field)(gYi[i], gXi[i], e);
             if(Util::isValid(value)) {
                value += elevCorr;
@@ -416,23 +436,6 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          }
       }
 
-      // Calculate number of valid members
-      int nValidEns = 0;
-      std::vector<int> validEns;
-      for(int e = 0; e < nEns; e++) {
-         int numInvalid = 0;
-         for(int x = 0; x < nX; x++) {
-            for(int y = 0; y < nY; y++) {
-               float value = (*field)(y, x, e);
-               if(!Util::isValid(value))
-                  numInvalid++;
-            }
-         }
-         if(numInvalid == 0) {
-            validEns.push_back(e);
-            nValidEns++;
-         }
-      }
       std::cout << "Number of valid ensemble members: " << nValidEns << std::endl;
       bool singleMemberMode = !mUseEns || nValidEns < mMinValidEns;
 
-- 
2.43.0


From 0aca0cac1282c258ed8d9900b5ec7f52539fa6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:54 +0000
Subject: [PATCH 112/124] fix: the oi calibrator aborted on missing elevations
 when elevGradient is used

---
 src/client/Calibrator/Oi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index b569bc7..264d68e 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -402,10 +402,10 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          float elevCorr = 0;
          if(Util::isValid(mElevGradient) && mElevGradient != 0) {
             float nnElev = elevs[gYi[i]][gXi[i]];
-            assert(Util::isValid(nnElev));
-            assert(Util::isValid(gLocations[i].elev()));
-            float elevDiff = gLocations[i].elev() - nnElev;
-            elevCorr = mElevGradient * elevDiff;
+            if(Util::isValid(nnElev) && Util::isValid(gLocations[i].elev())) {
+               float elevDiff = gLocations[i].elev() - nnElev;
+               elevCorr = mElevGradient * elevDiff;
+            }
          }
          float total = 0;
          int count = 0;
-- 
2.43.0


From 75109d08b6a728e8c9290a875d7588a68decf3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:54 +0000
Subject: [PATCH 113/124] fix: missing land fractions entered the correlations
 among the stations of the oi calibrator

---
 src/client/Calibrator/Oi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 264d68e..be70144 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -593,7 +593,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      if(Util::isValid(gLocations[index].elev()) && Util::isValid(gLocations[index_j].elev()))
                         vdist = gLocations[index].elev() - gLocations[index_j].elev();
                            float lafdist = 0;
-                     if(Util::isValid(gLafs[index]) && Util::isValid(laf))
+                     if(Util::isValid(gLafs[index]) && Util::isValid(gLafs[index_j]))
                         lafdist = gLafs[index] - gLafs[index_j];
 
                      lP(i, j) = calcRho(hdist, vdist, lafdist, mRhoType);
-- 
2.43.0


From 2439d104eb0a5dbeb1763dc39ad304b68d012081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:54 +0000
Subject: [PATCH 114/124] fix: gridpoints and stations without coordinates were
 fully correlated in the oi calibrator

---
 src/client/Calibrator/Oi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index be70144..6e90f55 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -1124,6 +1124,9 @@ float CalibratorOi::calcDelta(float iOldDelta, const vec2& iY) const {
 }
 
 float CalibratorOi::calcRho(float iHDist, float iVDist, float iLDist, RhoType iType) const {
+   // Locations without coordinates are not correlated
+   if(!Util::isValid(iHDist))
+      return 0;
    float h = (iHDist/mHLength);
    float rho = 1;
    if(iType == RhoTypeGaussian)
-- 
2.43.0


From 8543a268ebdf7069ec41e2d68f6f657c6b4a90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:56 +0000
Subject: [PATCH 115/124] fix: the oi calibrator aborted when a station has no
 parameters at the first time

---
 src/client/Calibrator/Oi.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 6e90f55..29c5153 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -241,8 +241,9 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          Util::info(ss.str());
       }
       Parameters parameters = iParameterFile->getParameters(0, gLocations[i]);
-      assert(parameters.size() > 0);
-      gObs[i] = transform(parameters[0]);
+      // Stations without any parameters have no observation
+      if(parameters.size() > 0 && Util::isValid(parameters[0]))
+         gObs[i] = transform(parameters[0]);
       if(parameters.size() == 2)
          gCi[i] = parameters[1];
       if(parameters.size() == 3)
-- 
2.43.0


From 94c68d16745ac9b1209b4e63bd054667e1b66959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 116/124] fix: leave missing values out of the minimum in QNH
 bulletins

A NaN became the lowest integer when it was converted, and so the
station's minimum.
---
 src/client/File/NorcomQnh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/File/NorcomQnh.cpp b/src/client/File/NorcomQnh.cpp
index fadc151..acb0f74 100644
--- a/src/client/File/NorcomQnh.cpp
+++ b/src/client/File/NorcomQnh.cpp
@@ -127,8 +127,10 @@ void FileNorcomQnh::writeCore(std::vector<Variable> iVariables, std::string iMes
       int valuePa = Util::MV;
       for(int t = mStartTime; t <= mEndTime; t++) {
          FieldPtr field = getField(variable, t);
+         if(!Util::isValid((*field)(0,j,0)))
+            continue;
          int currValue = (int) (*field)(0,j,0);
-         if(!Util::isValid(valuePa)|| (Util::isValid(currValue) && currValue < valuePa))
+         if(!Util::isValid(valuePa) || currValue < valuePa)
             valuePa = currValue;
       }
       if(!Util::isValid(valuePa)) {
-- 
2.43.0


From dbfa6e390302d7bf2c9b7459f659666ec8784626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:52 +0000
Subject: [PATCH 117/124] fix: the oi calibrator refused the documented
 transform=none

---
 src/client/Calibrator/Oi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 29c5153..cb6a42f 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -87,6 +87,8 @@ CalibratorOi::CalibratorOi(Variable iVariable, const Options& iOptions):
    if(iOptions.getValue("transform", transformType)) {
       if(transformType == "boxcox")
          mTransformType = TransformTypeBoxCox;
+      else if(transformType == "none")
+         mTransformType = TransformTypeNone;
       else {
          std::stringstream ss;
          ss << "Could not recognize transform=" << transformType << std::endl;
-- 
2.43.0


From 0179b317d7cc6e552c60fae5ce01b5dd36682d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:52 +0000
Subject: [PATCH 118/124] fix: the oi calibrator let increments pass where an
 observation equals the background

---
 src/client/Calibrator/Oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index cb6a42f..fba9f34 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -959,13 +959,13 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                         if(x == mX && y == mY) {
                            std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                         }
-                        if(maxInc > 0 && memberIncrement > maxInc) {
+                        if(maxInc >= 0 && memberIncrement > maxInc) {
                            currIncrement = maxInc + X(e);
                         }
                         else if(maxInc < 0 && memberIncrement > 0) {
                            currIncrement = 0 + X(e);
                         }
-                        else if(minInc < 0 && memberIncrement < minInc) {
+                        else if(minInc <= 0 && memberIncrement < minInc) {
                            currIncrement = minInc + X(e);
                         }
                         else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From 89ed5f2d04782fbace99c191f0312921ba7d59a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:30 +0000
Subject: [PATCH 119/124] fix: bilinear downscaler of the program aborted in
 cells with parallel sides

---
 src/client/Downscaler/Bilinear.cpp | 109 ++++++++++++++++-------------
 1 file changed, 59 insertions(+), 50 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index afc29c0..b950006 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -408,61 +408,70 @@ bool DownscalerBilinear::calcParallelogram(float x, float y, float X1, float X2,
 
 bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s) {
    // std::cout << "Method general" << std::endl;
-   float a = -x0 + x2;
-   float b = -x0 + x1;
-   float c = x0 - x1 - x2 + x3;
-   float d = x - x0;
-   float e = -y0 + y2;
-   float f = -y0 + y1;
-   float g = y0 - y1 - y2 + y3;
-   float h = y - y0;
-   float alpha=Util::MV, beta=Util::MV;
-   float Y1 = y1;
-   float Y2 = y3;
-   float Y3 = y0;
-   float Y4 = y2;
-   float X1 = x1;
-   float X2 = x3;
-   float X3 = x0;
-   float X4 = x2;
-   float X31 = X3 - X1;
-   float X21 = X2 - X1;
-   float Y42 = Y4 - Y2;
-   float Y21 = Y2 - Y1;
-   float Y31 = Y3 - Y1;
-   float Y43 = Y4 - Y3;
-   float X42 = X4 - X2;
-   float X43 = X4 - X3;
-   if(2 * c * e - 2 * a * g != 0 && 2 * c * f - 2 * b * g != 0) {
-      alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-      beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
+   double a = -x0 + x2;
+   double b = -x0 + x1;
+   double c = x0 - x1 - x2 + x3;
+   double d = x - x0;
+   double e = -y0 + y2;
+   double f = -y0 + y1;
+   double g = y0 - y1 - y2 + y3;
+   double h = y - y0;
+   double alpha=Util::MV, beta=Util::MV;
+   double Y1 = y1;
+   double Y2 = y3;
+   double Y3 = y0;
+   double Y4 = y2;
+   double X1 = x1;
+   double X2 = x3;
+   double X3 = x0;
+   double X4 = x2;
+   double X31 = X3 - X1;
+   double X21 = X2 - X1;
+   double Y42 = Y4 - Y2;
+   double Y21 = Y2 - Y1;
+   double Y31 = Y3 - Y1;
+   double Y43 = Y4 - Y3;
+   double X42 = X4 - X2;
+   double X43 = X4 - X3;
+   // The quadratic equations have two solutions, where the one for a point inside the cell is the
+   // one between 0 and 1
+   double Qalpha = b * e - a * f + d * g - c * h;
+   double Qbeta = b * e - a * f - d * g + c * h;
+   double root = sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(Qalpha, 2));
+   if(2 * c * e - 2 * a * g != 0) {
+      alpha = -(Qalpha + root)/(2 * c * e - 2 * a * g);
+      double other = -(Qalpha - root)/(2 * c * e - 2 * a * g);
+      if(fabs(other - 0.5) < fabs(alpha - 0.5))
+         alpha = other;
+   }
+   if(2 * c * f - 2 * b * g != 0) {
+      beta = (Qbeta + root)/(2 * c * f - 2 * b * g);
+      double other = (Qbeta - root)/(2 * c * f - 2 * b * g);
+      if(fabs(other - 0.5) < fabs(beta - 0.5))
+         beta = other;
    }
-   else if(2 * c * f - 2 * b * g == 0) {
+   else {
       // std::cout << "Need to diagnose t" << std::endl;
-      alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-      float s = alpha;
-      float t;
-      if(Y3 + Y43 * s - Y1 - Y21 * s == 0) {
-         assert(X3 + X43 * s - X1 - X21 * s != 0);
-         t = (x - X1 - X21 * s) / (X3 + X43 * s - X1 - X21 * s);
-      }
-      else {
-         t = (y - Y1 - Y21 * s) / (Y3 + Y43 * s - Y1 - Y21 * s);
-      }
+      double s = alpha;
+      double dx = X3 + X43 * s - X1 - X21 * s;
+      double dy = Y3 + Y43 * s - Y1 - Y21 * s;
+      double t;
+      if(fabs(dx) > fabs(dy))
+         t = (x - X1 - X21 * s) / dx;
+      else
+         t = (y - Y1 - Y21 * s) / dy;
       beta = 1 - t;
    }
-   else if(2 * c * e - 2 * a * g == 0) {
+   if(2 * c * e - 2 * a * g == 0) {
       // std::cout << "Need to diagnose s" << std::endl;
-      beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-      float t =  1 - beta;
-      float s;
-      if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-         assert(X2 + X42 * t - X1 - X31 * t != 0);
-         s = (x - X1 - X31 * t) / (X2 + X42 * t - X1 - X31 * t);
-      }
-      else {
-         s = (y - Y1 - Y31 * t) / (Y2 + Y42 * t - Y1 - Y31 * t);
-      }
+      double t = 1 - beta;
+      double dx = X2 + X42 * t - X1 - X31 * t;
+      double dy = Y2 + Y42 * t - Y1 - Y31 * t;
+      double s;
+      if(fabs(dx) > fabs(dy))
+         s = (x - X1 - X31 * t) / dx;
+      else
+         s = (y - Y1 - Y31 * t) / dy;
       alpha = s;
    }
    s = alpha;
-- 
2.43.0


From ce351f7864786a81d8cbbb0a37e705a2837a4815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:09 +0000
Subject: [PATCH 120/124] fix: bilinear interpolation in cells with parallel
 sides divided by rounding errors

---
 src/api/bilinear.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 38b293a..0af80a8 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -243,14 +243,15 @@ namespace {
                 alpha = -(b * e - a * f + d * g - c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
             float s = alpha;
             float t;
-            if(Y3 + Y43 * s - Y1 - Y21 * s == 0) {
-                if(X3 + X43 * s - X1 - X21 * s == 0)
-                    return false;
-                t = (x - X1 - X21 * s) / (X3 + X43 * s - X1 - X21 * s);
-            }
-            else {
-                t = (y - Y1 - Y21 * s) / (Y3 + Y43 * s - Y1 - Y21 * s);
-            }
+            // Use the larger component, since the other one can be only a rounding error
+            double dx = X3 + X43 * s - X1 - X21 * s;
+            double dy = Y3 + Y43 * s - Y1 - Y21 * s;
+            if(dx == 0 && dy == 0)
+                return false;
+            if(fabs(dx) > fabs(dy))
+                t = (x - X1 - X21 * s) / dx;
+            else
+                t = (y - Y1 - Y21 * s) / dy;
             beta = 1 - t;
             if(!is_within_range(alpha) || !is_within_range(beta))
                 return false;
@@ -262,14 +263,14 @@ namespace {
                 beta  = (b * e - a * f - d * g + c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
             float t =  1 - beta;
             float s;
-            if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-                if(X2 + X42 * t - X1 - X31 * t == 0)
-                    return false;
-                s = (x - X1 - X31 * t) / (X2 + X42 * t - X1 - X31 * t);
-            }
-            else {
-                s = (y - Y1 - Y31 * t) / (Y2 + Y42 * t - Y1 - Y31 * t);
-            }
+            double dx = X2 + X42 * t - X1 - X31 * t;
+            double dy = Y2 + Y42 * t - Y1 - Y31 * t;
+            if(dx == 0 && dy == 0)
+                return false;
+            if(fabs(dx) > fabs(dy))
+                s = (x - X1 - X31 * t) / dx;
+            else
+                s = (y - Y1 - Y31 * t) / dy;
             alpha = s;
             if(!is_within_range(alpha) || !is_within_range(beta))
                 return false;
-- 
2.43.0


From c34fec6d0c8b5a61c9121f713f84e74ff4b8bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:05 +0000
Subject: [PATCH 121/124] fix: the sign of a longitude of zero was undefined

---
 src/client/File/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/File.cpp b/src/client/File/File.cpp
index 66e1fb6..a2a773a 100644
--- a/src/client/File/File.cpp
+++ b/src/client/File/File.cpp
@@ -269,7 +269,7 @@ bool File::setLons(vec2 iLons) {
          float lon = mLons[i][j];
          if(Util::isValid(lon)) {
             // Ensure lon is between -180 and 180
-            int sign = lon / fabs(lon);
+            int sign = lon < 0 ? -1 : 1;
             lon = fabs(lon);
             lon = fmod(lon,360); // lon is between 0 and 360
             lon = sign * lon; // lon is between -360 and 360
-- 
2.43.0


From fd46fb2b0d8986c7162433fca9013ee6ac581333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:11 +0000
Subject: [PATCH 122/124] fix: prepending to a long history overflowed the
 stack

---
 src/client/File/Netcdf.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index a2a6e5e..1c21a43 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1033,11 +1033,10 @@ void FileNetcdf::appendGlobalAttribute(std::string iName, std::string iValue) {
          Util::warning(ss0.str());
       }
       else {
-         char value[len+1];
-         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), value);
+         std::vector<char> value(len + 1, '\0');
+         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), &value[0]);
          handleNetcdfError(status, "could not append global attribute");
-         value[len] = '\0';
-         ss << value << "\n";
+         ss << &value[0] << "\n";
       }
       ss << iValue;
       setGlobalAttribute(iName, ss.str());
@@ -1063,11 +1062,10 @@ void FileNetcdf::prependGlobalAttribute(std::string iName, std::string iValue) {
          Util::warning(ss0.str());
       }
       else {
-         char value[len+1];
-         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), value);
+         std::vector<char> value(len + 1, '\0');
+         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), &value[0]);
          handleNetcdfError(status, "could not get attribute when prepending a new value");
-         value[len] = '\0';
-         ss << "\n" << value;
+         ss << "\n" << &value[0];
       }
       setGlobalAttribute(iName, ss.str());
    }
-- 
2.43.0


From 467a2e8a81ca3b942b1906e2edd42384a570d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:49 +0000
Subject: [PATCH 123/124] fix: smart downscaler aborted on a negative number of
 neighbours

---
 src/client/Downscaler/Smart.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Downscaler/Smart.cpp b/src/client/Downscaler/Smart.cpp
index 306df69..520935e 100644
--- a/src/client/Downscaler/Smart.cpp
+++ b/src/client/Downscaler/Smart.cpp
@@ -10,6 +10,8 @@ DownscalerSmart::DownscalerSmart(const Variable& iInputVariable, const Variable&
       mMinElevDiff(Util::MV) {
    iOptions.getValue("radius", mRadius);
    iOptions.getValue("num", mNum);
+   if(mNum < 1)
+      Util::error("DownscalerSmart: num must be at least 1");
    iOptions.getValue("minElevDiff", mMinElevDiff);
    iOptions.check();
 }
-- 
2.43.0


From ac8963903beddf65e713acd1f75ae5cd0afa6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:33 +0000
Subject: [PATCH 124/124] fix: deaccumulation with a negative window read
 outside the file's times

---
 src/client/Calibrator/Deaccumulate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Deaccumulate.cpp b/src/client/Calibrator/Deaccumulate.cpp
index 3595ce1..8b86f17 100644
--- a/src/client/Calibrator/Deaccumulate.cpp
+++ b/src/client/Calibrator/Deaccumulate.cpp
@@ -5,6 +5,8 @@ CalibratorDeaccumulate::CalibratorDeaccumulate(const Variable& iVariable, const
       mWindow(1),
       Calibrator(iVariable, iOptions) {
    iOptions.getValue("window", mWindow);
+   if(mWindow < 0)
+      Util::error("CalibratorDeaccumulate: 'window' must be >= 0");
    iOptions.check();
 }
 bool CalibratorDeaccumulate::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
-- 
2.43.0


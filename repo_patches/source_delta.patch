From 7fd46fa8d5f75d39aa3c7f92b7149350c691fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 01/23] fix: accumulate the normalisation in double precision

The constructor of Correlator copied every value through a float, so the
normalisation of data with a large offset was off (a zero lag correlation of
0.597 instead of 1 for values near 1e9).
---
 sacf/correlator/Correlator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 26fb9e2..a752dec 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -39,7 +39,7 @@ Correlator::Correlator(DataStructure* ds_in){
     int i = 0;
     for(int j = 0; j < N_datasets; j++){
         for(int i = 0; i < M_datapoints; i++){
-            float X = ds->rdata()->at(ds->getVectorIndex(i, j));
+            double X = ds->rdata()->at(ds->getVectorIndex(i, j));
             if(!std::isnan(X)){
                 N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);
             }
-- 
2.43.0


From 5f9456d3c270dfbaeb8911b1c51d8e6703c7582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 02/23] fix: use the floating point overloads of abs

An unqualified abs is ::abs(int) unless some other header happens to put the
floating point overloads in the global namespace, so where it does not, time
differences were truncated to whole numbers.
---
 sacf/correlator/Correlator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index a752dec..9856f7e 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -97,8 +97,8 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             if(idx < 0){ idx = 0L; } //to prevent negative 
 
             if(idx != 0){ //i.e. not the first index
-                if (abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
-                    < abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+                if (std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
+                    < std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
             }
             cor_it->selection_indices.push_back(idx);
         }
@@ -124,8 +124,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
         long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
+        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
         cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
         for (int i = 0; i <= max_idx - idx; i++) {
             cor_it->selection_indices[i] = idx + i;
@@ -163,7 +163,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
-- 
2.43.0


From c65a5426b36157670c09d2192f9cf6aefbc2f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 03/23] fix: keep the shifted times until deltaT has used them

The selection functions emptied shifted_timeseries before deltaT read its
elements, which is undefined behaviour (and aborts with library assertions).
It is now emptied by deltaT, and on entry to a selection function.
---
 sacf/correlator/Correlator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 9856f7e..90d9a2c 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -81,6 +81,8 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
      * returns a vector of indices corresponding to the closest time points for a shifted timeseries (shifted by k)
      * by finding the closest point for every data point.
      */
+    cor_it->shifted_timeseries.clear();
+    cor_it->selection_indices.clear();
     for(auto const& time_point: *ds->rnormalised_timeseries()){
         if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){
             break;
@@ -103,7 +105,6 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices.push_back(idx);
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
@@ -111,6 +112,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
      * returns a vector of indices corresponding to the closest time points for a shifted timeseries (shifted by k)
      * by finding the closest point for the first data point and filling in the rest by index.
      */
+    cor_it->shifted_timeseries.clear();
+    cor_it->selection_indices.clear();
     for(auto const& time_point: *ds->rnormalised_timeseries()){
         if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back()){
             break;
@@ -131,7 +134,6 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices[i] = idx + i;
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::findCorrelation(CorrelationIterator* cor_it){
@@ -163,7 +165,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries.at(t_i)));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
-- 
2.43.0


From 1d8bd1ff214833d53376510e5ebf3bcc75ec503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 04/23] fix: size the stored correlations by the lag steps in
 force

Storage for the lag steps was sized once, by the default lag range and
resolution, so a finer resolution or a wider range wrote past its end, and a
series with one tiny gap could not be used even with a coarse resolution.
It is now sized when the calculation starts and grows when a step is added.
---
 sacf/correlator/Correlator.cpp | 46 ++++++++++++++++++++++++++--------
 sacf/include/Correlator.h      |  1 +
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 90d9a2c..5d0944f 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -3,9 +3,12 @@
 //
 
 #include "Correlator.h"
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <cfloat>
+#include <limits>
+#include <stdexcept>
 
 double findMinDiff(std::vector<double>* arr){
     // Initialize difference as infinite
@@ -49,9 +52,7 @@ Correlator::Correlator(DataStructure* ds_in){
     min_lag = -max_lag;
     lag_resolution = findMinDiff(ds->rnormalised_timeseries());
     alpha = ds->median_time();
-    num_lag_steps = (int) std::floor((max_lag - min_lag) / lag_resolution) + 3; // 3 additional elements at min, 0, max
-    correlation_data._correlations = std::vector<double>(N_datasets * num_lag_steps);
-    correlation_data._timeseries = std::vector<double>(num_lag_steps);
+    num_lag_steps = 0; // storage follows the lag steps actually calculated
 };
 
 Correlator::Correlator(DataStructure *, DataStructure *) {
@@ -234,7 +235,29 @@ double Correlator::getNDatasets(){
     return N_datasets;
 }
 
+void Correlator::resizeCorrelationData(int steps){
+    // make room for a number of lag steps, keeping those stored already. Changes nothing if memory runs out.
+    CorrelationData resized;
+    resized._timeseries = std::vector<double>(steps);
+    resized._correlations = std::vector<double>(N_datasets * steps);
+    int kept = std::min(steps, num_lag_steps);
+    std::copy(correlation_data._timeseries.begin(), correlation_data._timeseries.begin() + kept,
+              resized._timeseries.begin());
+    for(int j = 0; j < N_datasets; j++){
+        auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
+        std::copy(start, start + kept, resized._correlations.begin() + (j * steps));
+    }
+    std::swap(correlation_data, resized);
+    num_lag_steps = steps;
+}
+
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
+    if(timestep_number < 0){
+        throw std::out_of_range("timestep number cannot be negative");
+    }
+    if(timestep_number >= num_lag_steps){
+        resizeCorrelationData(std::max(timestep_number + 1, 2 * num_lag_steps));
+    }
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
         correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
@@ -243,18 +266,19 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
 
 void Correlator::cleanCorrelationData(int i){
     // clean up extra elements at end of vector not used.
-    correlation_data._timeseries.resize(i);
-    std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
-    for(int j = 0; j < N_datasets; j++){
-        auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
-        std::copy(start, start + i, copy_correlations.begin() + (j * i));
-    }
-    correlation_data._correlations = copy_correlations;
-    num_lag_steps = i;
+    resizeCorrelationData(i);
 }
 
 void Correlator::calculateStandardCorrelation(){
 
+    double steps = std::floor((max_lag - min_lag) / lag_resolution) + 3; // 3 additional elements at min, 0, max
+    if(steps >= std::numeric_limits<int>::max()){
+        throw std::length_error("too many lag steps between min_lag and max_lag for this lag_resolution");
+    }
+    if(steps > num_lag_steps){
+        resizeCorrelationData((int) steps);
+    }
+
     double k = min_lag;
     bool is_positive = false;
     int i = 0;
diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 410f2a1..ff06439 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -84,6 +84,7 @@ public:
     void findCorrelation(CorrelationIterator*);
     void addCorrelationData(CorrelationIterator*, int);
     void cleanCorrelationData(int);
+    void resizeCorrelationData(int);
     void calculateStandardCorrelation();
     void _calculateStandardCorrelation(double, int);
 
-- 
2.43.0


From d2640e98704b9a102c2c23a45dbc73df2feec070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 05/23] fix: clearing the correlations leaked and left a stale
 size

clearCorrelation copied from a new object it never freed and kept the old
number of lag steps, so reading the correlations afterwards read past the end
of empty vectors.
---
 sacf/include/Correlator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index ff06439..50760eb 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -88,7 +88,7 @@ public:
     void calculateStandardCorrelation();
     void _calculateStandardCorrelation(double, int);
 
-    void clearCorrelation() {correlation_data = *new CorrelationData; };
+    void clearCorrelation() { correlation_data = CorrelationData(); num_lag_steps = 0; };
 
     double fractionWeightFunction(double);
     double fractionSquaredWeightFunction(double);
-- 
2.43.0


From f7d84ca03bf7ae3696bd9478bf40fbbfca2274bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 06/23] fix: free the per-step state when a step fails

The state of a lag step was deleted only when nothing in the step threw, so
running out of memory leaked it.
---
 sacf/correlator/Correlator.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 5d0944f..610bcff 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -303,11 +303,10 @@ void Correlator::_calculateStandardCorrelation(double k, int i){
     /*
     Standard method of calculating correlations, using fractional weight function and natural selection function
     */
-    auto const& col_it = new CorrelationIterator(k, N_datasets);
-    naturalSelectionFunctionIdx(col_it);
-    deltaT(col_it);
-    getFractionWeights(col_it);
-    findCorrelation(col_it);
-    addCorrelationData(col_it, i);
-    delete col_it;
+    CorrelationIterator col_it(k, N_datasets);
+    naturalSelectionFunctionIdx(&col_it);
+    deltaT(&col_it);
+    getFractionWeights(&col_it);
+    findCorrelation(&col_it);
+    addCorrelationData(&col_it, i);
 }
-- 
2.43.0


From 825bf2a4c64b0cf6fe816800b4ef82b71af257e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 07/23] fix: reject a lag resolution that does not advance the
 lag

A zero, negative, NaN or vanishingly small lag_resolution made the lag loop
run for ever.
---
 sacf/correlator/Correlator.cpp | 3 +++
 sacf/sacf.py                   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 610bcff..4be845e 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -283,6 +283,9 @@ void Correlator::calculateStandardCorrelation(){
     bool is_positive = false;
     int i = 0;
     while(k <= max_lag){
+        if(!(k + lag_resolution > k)){
+            throw std::invalid_argument("lag_resolution is too small to advance the lag");
+        }
         if(k==0){
             is_positive = true;
         }
diff --git a/sacf/sacf.py b/sacf/sacf.py
index eeabe2f..3f71e59 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -71,6 +71,8 @@ class SACF:
             k = min_lag
             is_positive = False
             while k <= max_lag:
+                if not k + lag_resolution > k:
+                    raise ValueError("lag_resolution is too small to advance the lag")
                 if k == 0:
                     is_positive = True
                 if k > 0 and not is_positive:
-- 
2.43.0


From 378e8ec727482533dcb1d1a955196a91fa6d92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 08/23] fix: an empty lag range with non-default functions

With min_lag above max_lag the Python loop left its counter unset and raised
UnboundLocalError where the C++ loop returns no lags.
---
 sacf/sacf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sacf/sacf.py b/sacf/sacf.py
index 3f71e59..ab3b2af 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -81,6 +81,7 @@ class SACF:
                 yield k
                 k += lag_resolution
 
+        steps = 0
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
         ):
@@ -90,8 +91,9 @@ class SACF:
             WEIGHT_FUNCTIONS[weight_function](corr, col_it)
             corr.findCorrelation(col_it)
             corr.addCorrelationData(col_it, i)
+            steps = i + 1
 
-        corr.cleanCorrelationData(i + 1)
+        corr.cleanCorrelationData(steps)
 
     def autocorrelation(
         self,
-- 
2.43.0


From ff81e5a5c30747154df39b2a63e6f2c65f42b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 09/23] fix: fast selection looked past the last data point

A lag between the last two times made the fast selection function raise
IndexError.
---
 sacf/correlator/Correlator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 4be845e..be281cd 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -128,7 +128,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
         long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
+        if (idx + 1 < (long) ds->rnormalised_timeseries()->size()
+            && std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
             < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
         cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
         for (int i = 0; i <= max_idx - idx; i++) {
-- 
2.43.0


From 4ecfd853b7846e88e1d07a4f630de6b13c4c199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 10/23] fix: report a failed read of the data file

A read error part way through the file ended the loop like the end of the
file, so the rows read before it were taken for the whole data set.
---
 sacf/datastructure/DataStructure.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index fa972bf..ae046e8 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -127,6 +127,9 @@ DataStructure::DataStructure(const std::string &filename){
             }
         }
     }
+    if(file.bad()){  // the rest of the file could not be read
+        throw BadFileEx;
+    }
     _data = data_in;
     t = t_in;
     if(has_errors){
-- 
2.43.0


From 93018fc156bb8d2e77fa093aebdaf433a06a5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 11/23] fix: keep the errors of a data file aligned with its
 rows

A row whose error was missing or unreadable stored no error, and one with
more columns stored several, so every later error belonged to another row and
reading the errors could go past the end. Each row now stores exactly one,
NaN where there is none.
---
 sacf/datastructure/DataStructure.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index ae046e8..77e8fdf 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -113,13 +113,16 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
-                while(linestream >> t_val >> X_val){
+                if(linestream >> t_val >> X_val){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
-                    while(linestream >> X_err_val && has_errors){
-                        data_err_in.push_back(X_err_val);
+                    if(linestream >> X_err_val){
                         update_has_errors = 0;
                     }
+                    else { X_err_val = NAN; } // no error readable in this row
+                    if(has_errors){
+                        data_err_in.push_back(X_err_val);
+                    }
                     if(update_has_errors){
                         has_errors = 0;
                     }
-- 
2.43.0


From a7f950f7089673b4d0b346b8bcd3a647bc4384fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 12/23] fix: reject values and errors whose lengths do not
 match the times

Values of a multiple of the number of times, rows of unequal length and errors
of any length were accepted; reading the errors then went past their end, and
surplus values were dropped or moved to another series.
---
 sacf/datastructure/DataStructure.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 77e8fdf..1cbbcb6 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -30,9 +30,17 @@ const char* BadDataInputException::what() const throw(){
 
 BadDataInputException BadDataEx;
 
+static void checkRows(const std::vector< std::vector<double> >& rows){
+    // every row must have as many datapoints as the first
+    for(auto const& row: rows){
+        if(row.size() != rows.front().size()){ throw BadDataEx; }
+    }
+}
+
 void DataStructure::setUp(){
     if (_data.empty() || t.empty()){ throw EmptyDSEx; }
-    if (_data.size() % t.size() != 0){ throw BadDataEx; }
+    if (_data.size() != t.size() * N_datasets){ throw BadDataEx; }
+    if (!err.empty() && err.size() != _data.size()){ throw BadDataEx; }
     setDataMean();
     settMax();
     norm_t.resize(t.size());
@@ -46,6 +54,7 @@ long DataStructure::getVectorIndex(int i, int j){
 }
 
 DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in): t(*t_in){
+    checkRows(*data_in);
     for(auto const& data_series: *data_in){
         for(auto const X: data_series){
             _data.push_back(X);
@@ -58,6 +67,8 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
 
 DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in,
                              std::vector< std::vector<double> >* data_err_in): t(*t_in){
+    checkRows(*data_in);
+    checkRows(*data_err_in);
     for(auto const& data_series: *data_in){
         for(auto const X: data_series){
             _data.push_back(X);
-- 
2.43.0


From acfc322777726e6c3370aacb983999b1468fccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 13/23] fix: no exception may leave a bound call outside its
 try block

Running out of memory while registering the new object, or an argument whose
repr raises while the message of a TypeError is put together, ended the process.
---
 sacf/include/pybind11/include/pybind11/pybind11.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sacf/include/pybind11/include/pybind11/pybind11.h b/sacf/include/pybind11/include/pybind11/pybind11.h
index 7fa0f0e..a802344 100644
--- a/sacf/include/pybind11/include/pybind11/pybind11.h
+++ b/sacf/include/pybind11/include/pybind11/pybind11.h
@@ -416,8 +416,20 @@ protected:
         }
     }
 
-    /// Main dispatch logic for calls to functions bound using pybind11
+    /// Entry point of every call: no C++ exception may leave it, as the caller is C code
     static PyObject *dispatcher(PyObject *self, PyObject *args_in, PyObject *kwargs_in) {
+        try {
+            return dispatch(self, args_in, kwargs_in);
+        } catch (error_already_set &e) {
+            e.restore();
+            return nullptr;
+        } catch (const std::bad_alloc &) {
+            return PyErr_NoMemory();
+        }
+    }
+
+    /// Main dispatch logic for calls to functions bound using pybind11
+    static PyObject *dispatch(PyObject *self, PyObject *args_in, PyObject *kwargs_in) {
         using namespace detail;
 
         /* Iterator over the list of potentially admissible overloads */
-- 
2.43.0


From 351f3b58c16c12ac120fd640e4a7a1e5a0323a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 14/23] fix: looking up a known type must not allocate

It is done while an object is made or destroyed, outside any try block: running
out of memory there ended the process.
---
 sacf/include/pybind11/include/pybind11/pybind11.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sacf/include/pybind11/include/pybind11/pybind11.h b/sacf/include/pybind11/include/pybind11/pybind11.h
index a802344..f3cb258 100644
--- a/sacf/include/pybind11/include/pybind11/pybind11.h
+++ b/sacf/include/pybind11/include/pybind11/pybind11.h
@@ -1624,6 +1624,9 @@ PYBIND11_NOINLINE inline void keep_alive_impl(size_t Nurse, size_t Patient, func
 }
 
 inline std::pair<decltype(internals::registered_types_py)::iterator, bool> all_type_info_get_cache(PyTypeObject *type) {
+    auto known = get_internals().registered_types_py.find(type);
+    if (known != get_internals().registered_types_py.end()) // no allocation, as destructors get here too
+        return {known, false};
     auto res = get_internals().registered_types_py
 #ifdef __cpp_lib_unordered_map_try_emplace
         .try_emplace(type);
-- 
2.43.0


From 5b61e46295a869eb3ad4dd10864b3a70c93c4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 15/23] fix: keep_alive that runs out of memory left a dangling
 promise

The nurse was marked as having patients before the record of them existed, which
its destructor then dereferenced, and the patient was never released.
---
 sacf/include/pybind11/include/pybind11/detail/class.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sacf/include/pybind11/include/pybind11/detail/class.h b/sacf/include/pybind11/include/pybind11/detail/class.h
index 7a5dd01..c91424f 100644
--- a/sacf/include/pybind11/include/pybind11/detail/class.h
+++ b/sacf/include/pybind11/include/pybind11/detail/class.h
@@ -289,9 +289,10 @@ extern "C" inline int pybind11_object_init(PyObject *self, PyObject *, PyObject
 inline void add_patient(PyObject *nurse, PyObject *patient) {
     auto &internals = get_internals();
     auto instance = reinterpret_cast<detail::instance *>(nurse);
+    auto &patients = internals.patients[nurse];
     instance->has_patients = true;
+    patients.push_back(patient);
     Py_INCREF(patient);
-    internals.patients[nurse].push_back(patient);
 }
 
 inline void clear_patients(PyObject *self) {
-- 
2.43.0


From 56ba607d6464a5b8531b31dccc99cf858651d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 16/23] fix: an object that could not be registered was freed
 without its destructor

---
 sacf/include/pybind11/include/pybind11/pybind11.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sacf/include/pybind11/include/pybind11/pybind11.h b/sacf/include/pybind11/include/pybind11/pybind11.h
index f3cb258..ec69931 100644
--- a/sacf/include/pybind11/include/pybind11/pybind11.h
+++ b/sacf/include/pybind11/include/pybind11/pybind11.h
@@ -1340,11 +1340,12 @@ private:
     /// `.owned`, a new holder will be constructed to manage the value pointer.
     static void init_instance(detail::instance *inst, const void *holder_ptr) {
         auto v_h = inst->get_value_and_holder(detail::get_type_info(typeid(type)));
+        // the holder first: should registration run out of memory, it destroys the value
+        init_holder(inst, v_h, (const holder_type *) holder_ptr, v_h.value_ptr<type>());
         if (!v_h.instance_registered()) {
             register_instance(inst, v_h.value_ptr(), v_h.type);
             v_h.set_instance_registered();
         }
-        init_holder(inst, v_h, (const holder_type *) holder_ptr, v_h.value_ptr<type>());
     }
 
     /// Deallocates an instance; via holder, if constructed; otherwise via operator delete.
-- 
2.43.0


From d0fd7a82059285a2e84ac8296ab258acd8f88b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 17/23] fix: running out of memory silently dropped rows of a
 data file

---
 sacf/datastructure/DataStructure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 1cbbcb6..f79c4cc 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -124,6 +124,7 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
+                linestream.exceptions(std::ios::badbit);  // running out of memory is not a malformed row
                 if(linestream >> t_val >> X_val){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
-- 
2.43.0


From d17567f9aec9db71d63e8990810fa01a5fb9a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 18/23] fix: read data files in the classic locale

With a global C++ locale that has a decimal comma no row could be read.
---
 sacf/datastructure/DataStructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index f79c4cc..fe93e81 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -5,6 +5,7 @@
 #include <fstream>
 #include <sstream>
 #include <iostream>
+#include <locale>
 #include <numeric>
 #include <algorithm>
 #include <cmath>
@@ -124,6 +125,7 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
+                linestream.imbue(std::locale::classic());  // whatever the process has made the global locale
                 linestream.exceptions(std::ios::badbit);  // running out of memory is not a malformed row
                 if(linestream >> t_val >> X_val){
                     t_in.push_back(t_val);
-- 
2.43.0


From 49035a514945dc28b4c960f2ad34b2750b1e9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 19/23] fix: an endless lag range with non-default functions
 never returned

The C++ path already refuses as many lag steps.
---
 sacf/sacf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sacf/sacf.py b/sacf/sacf.py
index ab3b2af..b5c020a 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -81,6 +81,13 @@ class SACF:
                 yield k
                 k += lag_resolution
 
+        if corr.lag_resolution and (
+            (corr.max_lag - corr.min_lag) / corr.lag_resolution >= 2 ** 31 - 4
+        ):
+            raise ValueError(
+                "too many lag steps between min_lag and max_lag for this lag_resolution"
+            )
+
         steps = 0
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
-- 
2.43.0


From d2242ceb36f558b97507f59d2cbea7f311edff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 20/23] fix: None where an object is needed crashed the
 interpreter

---
 sacf/correlator/correlator_bindings.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sacf/correlator/correlator_bindings.cpp b/sacf/correlator/correlator_bindings.cpp
index 12d2a3b..0a34c45 100644
--- a/sacf/correlator/correlator_bindings.cpp
+++ b/sacf/correlator/correlator_bindings.cpp
@@ -19,23 +19,23 @@ PYBIND11_MODULE(correlator, c) {
         ;
 
     py::class_<Correlator>(c, "Correlator")
-        .def(py::init<DataStructure*>(), py::keep_alive<1, 2>())
-        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx)
-        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx)
-        .def("deltaT", &Correlator::deltaT)
-        .def("findCorrelation", &Correlator::findCorrelation)
+        .def(py::init<DataStructure*>(), py::arg().none(false), py::keep_alive<1, 2>())
+        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx, py::arg().none(false))
+        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx, py::arg().none(false))
+        .def("deltaT", &Correlator::deltaT, py::arg().none(false))
+        .def("findCorrelation", &Correlator::findCorrelation, py::arg().none(false))
         .def("clearCorrelation", &Correlator::clearCorrelation)
         .def("fractionWeightFunction", &Correlator::fractionWeightFunction)
         .def("fractionSquaredWeightFunction", &Correlator::fractionSquaredWeightFunction)
         .def("gaussianWeightFunction", &Correlator::gaussianWeightFunction)
-        .def("getFractionWeights", &Correlator::getFractionWeights)
-        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights)
-        .def("getGaussianWeights", &Correlator::getGaussianWeights)
+        .def("getFractionWeights", &Correlator::getFractionWeights, py::arg().none(false))
+        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights, py::arg().none(false))
+        .def("getGaussianWeights", &Correlator::getGaussianWeights, py::arg().none(false))
         .def("normalised_timeseries", &Correlator::normalised_timeseries)
         .def("values", &Correlator::values)
         .def("lag_timeseries", &Correlator::lag_timeseries)
         .def("correlations", &Correlator::correlations)
-        .def("addCorrelationData", &Correlator::addCorrelationData)
+        .def("addCorrelationData", &Correlator::addCorrelationData, py::arg().none(false), py::arg())
         .def("cleanCorrelationData", &Correlator::cleanCorrelationData)
         .def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation)
         .def_property("max_lag", &Correlator::getMaxLag, &Correlator::setMaxLag)
-- 
2.43.0


From 0d1c16a935608eecbfc3b34d453a4cbff96b79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 21/23] fix: the stepwise functions trusted their arguments

An iterator for another number of datasets, weights left over from an earlier
selection or an extreme timestep number wrote or read outside the arrays.
---
 sacf/correlator/Correlator.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index be281cd..58a5d74 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -27,10 +27,10 @@ double findMinDiff(std::vector<double>* arr){
 
 CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
     k = k_in;
-    correlation = std::vector<double>(vec_size);
-    for(int i = 0; i < vec_size; i++){
-        correlation[i] = 0;
+    if(!(vec_size >= 0 && vec_size < std::numeric_limits<int>::max())){
+        throw std::length_error("number of datasets out of range");
     }
+    correlation = std::vector<double>((size_t) vec_size);
 };
 
 Correlator::Correlator(DataStructure* ds_in){
@@ -142,11 +142,11 @@ void Correlator::findCorrelation(CorrelationIterator* cor_it){
     for(int j = 0; j < N_datasets; j++){
         int i = 0;
         for(auto const& weight: cor_it->weights){
-            cor_it->correlation[j] += weight * (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
-                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j)));
+            cor_it->correlation.at(j) += weight * (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
+                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices.at(i), j)));
             i++;
         }
-        cor_it->correlation[j] *= (1 / N[j]);
+        cor_it->correlation.at(j) *= (1 / N[j]);
     }
 }
 
@@ -253,11 +253,15 @@ void Correlator::resizeCorrelationData(int steps){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
-    if(timestep_number < 0){
-        throw std::out_of_range("timestep number cannot be negative");
+    if(timestep_number < 0 || timestep_number == std::numeric_limits<int>::max()){
+        throw std::out_of_range("timestep number out of range");
+    }
+    if(col_it->correlation.size() != (size_t) N_datasets){
+        throw std::invalid_argument("correlations do not match the number of datasets");
     }
     if(timestep_number >= num_lag_steps){
-        resizeCorrelationData(std::max(timestep_number + 1, 2 * num_lag_steps));
+        int doubled = num_lag_steps > std::numeric_limits<int>::max() / 2 ? 0 : 2 * num_lag_steps;
+        resizeCorrelationData(std::max(timestep_number + 1, doubled));
     }
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
-- 
2.43.0


From 7c2d1947d3efd092becd3fcfbd65b40864374b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 22/23] fix: an error from the length of an input was lost, or
 turned into another

---
 sacf/include/pybind11/include/pybind11/pytypes.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sacf/include/pybind11/include/pybind11/pytypes.h b/sacf/include/pybind11/include/pybind11/pytypes.h
index 3329fda..288a3f3 100644
--- a/sacf/include/pybind11/include/pybind11/pytypes.h
+++ b/sacf/include/pybind11/include/pybind11/pytypes.h
@@ -1226,11 +1226,16 @@ private:
 class sequence : public object {
 public:
     PYBIND11_OBJECT_DEFAULT(sequence, object, PySequence_Check)
-    size_t size() const { return (size_t) PySequence_Size(m_ptr); }
+    size_t size() const {
+        ssize_t result = PySequence_Size(m_ptr);
+        if (result == -1)
+            throw error_already_set();
+        return (size_t) result;
+    }
     detail::sequence_accessor operator[](size_t index) const { return {*this, index}; }
     detail::item_accessor operator[](handle h) const { return object::operator[](h); }
     detail::sequence_iterator begin() const { return {*this, 0}; }
-    detail::sequence_iterator end() const { return {*this, PySequence_Size(m_ptr)}; }
+    detail::sequence_iterator end() const { return {*this, (ssize_t) size()}; }
 };
 
 class list : public object {
-- 
2.43.0


From 8ae5826ed95a69dc01bcfaaebfbf1305eadd31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 23/23] fix: a file name with a null character loaded the file
 named by the part before it

---
 sacf/datastructure/DataStructure.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index fe93e81..a44638e 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -105,6 +105,9 @@ DataStructure::DataStructure(const std::string &filename){
      */
     bool has_errors = 1;
     bool update_has_errors = 1;
+    if(filename.find('\0') != std::string::npos){
+        throw BadFileEx; // no file has such a name, and the part before it may name another
+    }
     std::ifstream file(filename, std::ios::in);
     if(file.fail()){
         throw BadFileEx;
-- 
2.43.0


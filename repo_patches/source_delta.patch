From 306d2b387be35f80c8a4e7b789275f28050cc00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 01/20] fix: accumulate the normalisation in double precision

The variance used to normalise the correlation was computed from values
truncated to float, so the zero-lag correlation was not 1 for data with a large
mean (and 0 for values beyond the range of float).
---
 sacf/correlator/Correlator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 26fb9e2..a752dec 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -39,7 +39,7 @@ Correlator::Correlator(DataStructure* ds_in){
     int i = 0;
     for(int j = 0; j < N_datasets; j++){
         for(int i = 0; i < M_datapoints; i++){
-            float X = ds->rdata()->at(ds->getVectorIndex(i, j));
+            double X = ds->rdata()->at(ds->getVectorIndex(i, j));
             if(!std::isnan(X)){
                 N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);
             }
-- 
2.43.0


From 8648173fe4d62f1a96e2e4d9450f7de3705894c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 02/20] fix: do not discard the shifted time series before
 deltaT reads it

Both selection functions cleared shifted_timeseries on return and deltaT then
indexed the empty vector (undefined behaviour; an abort with
_GLIBCXX_ASSERTIONS). deltaT clears it once it has been used.
---
 sacf/correlator/Correlator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index a752dec..ac916be 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -103,7 +103,6 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices.push_back(idx);
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
@@ -131,7 +130,6 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices[i] = idx + i;
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::findCorrelation(CorrelationIterator* cor_it){
-- 
2.43.0


From 3675c660be06c056edd15fec6fb5d8839c503bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 03/20] fix: use std::abs for time differences

Unqualified abs picks the integer ::abs when no header pulls std::abs(double)
into the global namespace (g++ and clang++ with libstdc++, for this file as it
stands), which truncates every time difference below one unit to zero.
---
 sacf/correlator/Correlator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index ac916be..5070748 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -97,8 +97,8 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             if(idx < 0){ idx = 0L; } //to prevent negative 
 
             if(idx != 0){ //i.e. not the first index
-                if (abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
-                    < abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+                if (std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
+                    < std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
             }
             cor_it->selection_indices.push_back(idx);
         }
@@ -123,8 +123,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
         long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
+        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
         cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
         for (int i = 0; i <= max_idx - idx; i++) {
             cor_it->selection_indices[i] = idx + i;
@@ -161,7 +161,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
-- 
2.43.0


From bd6f8e397edee2a7bfb223efdf5b51c0db2a579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 04/20] fix: size the correlation storage by the lags actually
 computed

The storage was sized once, from the default lag options. A wider range or a
finer lag_resolution (or a second calculation after such a change, or one after
clearCorrelation) wrote past its end and corrupted the heap. It now grows as
lags are added.
---
 sacf/correlator/Correlator.cpp | 15 ++++++++++-----
 sacf/include/Correlator.h      |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 5070748..55bbe58 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -6,6 +6,8 @@
 #include <cmath>
 #include <iostream>
 #include <cfloat>
+#include <algorithm>
+#include <stdexcept>
 
 double findMinDiff(std::vector<double>* arr){
     // Initialize difference as infinite
@@ -49,9 +51,7 @@ Correlator::Correlator(DataStructure* ds_in){
     min_lag = -max_lag;
     lag_resolution = findMinDiff(ds->rnormalised_timeseries());
     alpha = ds->median_time();
-    num_lag_steps = (int) std::floor((max_lag - min_lag) / lag_resolution) + 3; // 3 additional elements at min, 0, max
-    correlation_data._correlations = std::vector<double>(N_datasets * num_lag_steps);
-    correlation_data._timeseries = std::vector<double>(num_lag_steps);
+    num_lag_steps = 0; // correlation data grows as lags are added, the lag options may still change
 };
 
 Correlator::Correlator(DataStructure *, DataStructure *) {
@@ -231,6 +231,10 @@ double Correlator::getNDatasets(){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
+    if(timestep_number < 0){ throw std::out_of_range("lag timestep number must not be negative"); }
+    if(timestep_number >= num_lag_steps){
+        cleanCorrelationData(std::max(timestep_number + 1, 2 * num_lag_steps));
+    }
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
         correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
@@ -238,12 +242,13 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
 }
 
 void Correlator::cleanCorrelationData(int i){
-    // clean up extra elements at end of vector not used.
+    // resize to i lag timesteps: clean up extra elements at end of vector not used, or make room for more.
+    if(i < 0){ throw std::out_of_range("number of lag timesteps must not be negative"); }
     correlation_data._timeseries.resize(i);
     std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
     for(int j = 0; j < N_datasets; j++){
         auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
-        std::copy(start, start + i, copy_correlations.begin() + (j * i));
+        std::copy(start, start + std::min(i, num_lag_steps), copy_correlations.begin() + (j * i));
     }
     correlation_data._correlations = copy_correlations;
     num_lag_steps = i;
diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 410f2a1..4ff0735 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -87,7 +87,7 @@ public:
     void calculateStandardCorrelation();
     void _calculateStandardCorrelation(double, int);
 
-    void clearCorrelation() {correlation_data = *new CorrelationData; };
+    void clearCorrelation() {correlation_data = CorrelationData(); num_lag_steps = 0; };
 
     double fractionWeightFunction(double);
     double fractionSquaredWeightFunction(double);
-- 
2.43.0


From 1eb8f0086a1a5448ba3f16f623547907304d5262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 05/20] fix: reject lag grids and time series that cannot be
 stepped through

A lag_resolution that is zero, negative or NaN, an infinite lag limit and a time
series that is not strictly increasing (whose default lag_resolution is not
positive) made the lag loop run for ever, writing past its storage. They now
raise ValueError, as does a lag_resolution too small to step through the range
(which raised ValueError, by way of an overflowing cast, before the storage was
sized by the lags computed).
---
 sacf/correlator/Correlator.cpp          | 24 ++++++++++++++++++++++++
 sacf/correlator/correlator_bindings.cpp |  1 +
 sacf/include/Correlator.h               |  1 +
 sacf/sacf.py                            |  1 +
 4 files changed, 27 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 55bbe58..c1a2d7d 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <cfloat>
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
 
 double findMinDiff(std::vector<double>* arr){
@@ -24,6 +25,15 @@ double findMinDiff(std::vector<double>* arr){
    return diff;
 }
 
+static void checkStrictlyIncreasing(const std::vector<double>& times){
+    // lags and selection functions are only defined for an ordered time series (this rejects NaN times as well)
+    bool valid = std::isfinite(times.front()) && std::isfinite(times.back());
+    for(size_t i = 0; i + 1 < times.size(); i++){
+        valid = valid && times[i] < times[i + 1];
+    }
+    if(!valid){ throw std::invalid_argument("timeseries must be finite and strictly increasing"); }
+}
+
 CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
     k = k_in;
     correlation = std::vector<double>(vec_size);
@@ -36,6 +46,7 @@ Correlator::Correlator(DataStructure* ds_in){
     ds = ds_in;
     N_datasets = ds->N_datasets;
     M_datapoints = ds->M_datapoints;
+    checkStrictlyIncreasing(*ds->rnormalised_timeseries());
 
     N = std::vector<double>(N_datasets);
     int i = 0;
@@ -195,6 +206,7 @@ void Correlator::getGaussianWeights(CorrelationIterator* cor_it){
 }
 
 void Correlator::setMaxLag(double max_lag_in){
+    if(!std::isfinite(max_lag_in)){ throw std::invalid_argument("max_lag must be finite"); }
     max_lag = max_lag_in;
 }
 double Correlator::getMaxLag(){
@@ -202,6 +214,7 @@ double Correlator::getMaxLag(){
 }
 
 void Correlator::setMinLag(double min_lag_in){
+    if(!std::isfinite(min_lag_in)){ throw std::invalid_argument("min_lag must be finite"); }
     min_lag = min_lag_in;
 }
 double Correlator::getMinLag(){
@@ -209,6 +222,7 @@ double Correlator::getMinLag(){
 }
 
 void Correlator::setLagResolution(double lag_res){
+    if(!(lag_res > 0)){ throw std::invalid_argument("lag_resolution must be positive"); }
     lag_resolution = lag_res;
 }
 double Correlator::getLagResolution(){
@@ -254,8 +268,18 @@ void Correlator::cleanCorrelationData(int i){
     num_lag_steps = i;
 }
 
+void Correlator::checkLagSteps(){
+    // steps must be countable, and large enough to change the lag they are added to
+    double largest_lag = std::max(std::abs(min_lag), std::abs(max_lag));
+    if((max_lag - min_lag) / lag_resolution >= std::numeric_limits<int>::max() - 2
+       || (min_lag <= max_lag && !(largest_lag + lag_resolution > largest_lag))){
+        throw std::invalid_argument("lag_resolution is too small for the range of lags");
+    }
+}
+
 void Correlator::calculateStandardCorrelation(){
 
+    checkLagSteps();
     double k = min_lag;
     bool is_positive = false;
     int i = 0;
diff --git a/sacf/correlator/correlator_bindings.cpp b/sacf/correlator/correlator_bindings.cpp
index 12d2a3b..c2c9cff 100644
--- a/sacf/correlator/correlator_bindings.cpp
+++ b/sacf/correlator/correlator_bindings.cpp
@@ -37,6 +37,7 @@ PYBIND11_MODULE(correlator, c) {
         .def("correlations", &Correlator::correlations)
         .def("addCorrelationData", &Correlator::addCorrelationData)
         .def("cleanCorrelationData", &Correlator::cleanCorrelationData)
+        .def("checkLagSteps", &Correlator::checkLagSteps)
         .def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation)
         .def_property("max_lag", &Correlator::getMaxLag, &Correlator::setMaxLag)
         .def_property("min_lag", &Correlator::getMinLag, &Correlator::setMinLag)
diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 4ff0735..0a92cfa 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -84,6 +84,7 @@ public:
     void findCorrelation(CorrelationIterator*);
     void addCorrelationData(CorrelationIterator*, int);
     void cleanCorrelationData(int);
+    void checkLagSteps();
     void calculateStandardCorrelation();
     void _calculateStandardCorrelation(double, int);
 
diff --git a/sacf/sacf.py b/sacf/sacf.py
index eeabe2f..7e6b821 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -79,6 +79,7 @@ class SACF:
                 yield k
                 k += lag_resolution
 
+        corr.checkLagSteps()
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
         ):
-- 
2.43.0


From 4acb4cdc46cd1fbcb54095189717c53514f252db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 06/20] fix: read one data point per line and keep file errors
 aligned with the data

When the error column could not be read on some line (tests/tab_delim_with_titles_with_err.txt
has one) fewer errors than data points were kept, and errors() read past their
end; a fourth column was taken for a further error, or with a fifth for a
further data point. A missing error is now NaN and further columns are ignored.
---
 sacf/datastructure/DataStructure.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index fa972bf..a75531a 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -8,6 +8,7 @@
 #include <numeric>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 #include "DataStructure.h"
 
@@ -113,16 +114,21 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
-                while(linestream >> t_val >> X_val){
+                if(linestream >> t_val >> X_val){  // one data point per line
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
-                    while(linestream >> X_err_val && has_errors){
-                        data_err_in.push_back(X_err_val);
+                    if(linestream >> X_err_val){
                         update_has_errors = 0;
                     }
+                    else{
+                        X_err_val = std::numeric_limits<double>::quiet_NaN();  // error missing for this line
+                    }
                     if(update_has_errors){
                         has_errors = 0;
                     }
+                    if(has_errors){
+                        data_err_in.push_back(X_err_val);
+                    }
                 }
             }
         }
-- 
2.43.0


From 4c84183f10a2d293d1ab1d755a13a4bb5997270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 07/20] fix: reject data and errors whose shape does not match
 the time series

Only the total size modulo the number of times was checked, so data series of
unequal length, too many values and errors of another length were accepted, and
then read at the wrong place or past their end.
---
 sacf/datastructure/DataStructure.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index a75531a..7a1840e 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -33,7 +33,8 @@ BadDataInputException BadDataEx;
 
 void DataStructure::setUp(){
     if (_data.empty() || t.empty()){ throw EmptyDSEx; }
-    if (_data.size() % t.size() != 0){ throw BadDataEx; }
+    if (_data.size() != (size_t) (N_datasets * M_datapoints)){ throw BadDataEx; }
+    if (!err.empty() && err.size() != _data.size()){ throw BadDataEx; }
     setDataMean();
     settMax();
     norm_t.resize(t.size());
@@ -42,6 +43,13 @@ void DataStructure::setUp(){
     settMedian();
 }
 
+static bool isRagged(const std::vector< std::vector<double> >& rows){
+    for(auto const& row: rows){
+        if(row.size() != rows.front().size()){ return true; }
+    }
+    return false;
+}
+
 long DataStructure::getVectorIndex(int i, int j){
     return (long) i + j * M_datapoints;
 }
@@ -54,6 +62,7 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     }
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
+    if(isRagged(*data_in)){ throw BadDataEx; }
     setUp();
 };
 
@@ -71,6 +80,8 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     }
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
+    if(isRagged(*data_in) || isRagged(*data_err_in)){ throw BadDataEx; }
+    if(!err.empty() && data_err_in->size() != data_in->size()){ throw BadDataEx; }
     setUp();
 };
 
-- 
2.43.0


From 7b2f3ea4400e2857742155cc38818632300cd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 08/20] fix: select by index in the fast selection function as
 it documents

For lags beyond the last but one time it raised IndexError; it compared the
first shifted time with the two later time points instead of its two
neighbours, left the last selection_indices at 0 (pairing those points with the
first one), and dropped the last pair, so that the zero-lag correlation was
not 1. It now agrees with the natural selection on evenly sampled data.
---
 sacf/correlator/Correlator.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index c1a2d7d..9a24d5e 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -122,7 +122,7 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
      * by finding the closest point for the first data point and filling in the rest by index.
      */
     for(auto const& time_point: *ds->rnormalised_timeseries()){
-        if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back()){
+        if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){
             break;
         }
         else { cor_it->shifted_timeseries.push_back(time_point + cor_it->k); }
@@ -132,12 +132,15 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
         long idx = std::max(distance(ds->rnormalised_timeseries()->begin(),
                                 lower_bound(ds->rnormalised_timeseries()->begin(), ds->rnormalised_timeseries()->end(),
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
-        long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
+        long max_idx = M_datapoints - 1;
 
-        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
-        cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
-        for (int i = 0; i <= max_idx - idx; i++) {
+        if(idx != 0){ //i.e. not the first index
+            if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx - 1))
+                < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+        }
+        // data points whose index would be beyond the end of the time series are not selected
+        cor_it->selection_indices.resize(std::min((long) cor_it->shifted_timeseries.size(), max_idx - idx + 1));
+        for (int i = 0; i < cor_it->selection_indices.size(); i++) {
             cor_it->selection_indices[i] = idx + i;
         }
     }
-- 
2.43.0


From a44f10d055ae7f0a038086aefc6a4d247ab440d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 09/20] fix: return no lags from the Python path when min_lag
 exceeds max_lag

It raised UnboundLocalError where the C++ path returns empty lists.
---
 sacf/sacf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/sacf.py b/sacf/sacf.py
index 7e6b821..c5a1988 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -80,6 +80,7 @@ class SACF:
                 k += lag_resolution
 
         corr.checkLagSteps()
+        i = -1  # no lags yet
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
         ):
-- 
2.43.0


From 253512f21f7ff8d2e78babfc6f09e897e87e72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 10/20] fix: do not add the zero lag below a positive min_lag

With min_lag > 0 the lag 0, outside the requested range, was put in front.
---
 sacf/correlator/Correlator.cpp | 2 +-
 sacf/sacf.py                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 9a24d5e..195614b 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -284,7 +284,7 @@ void Correlator::calculateStandardCorrelation(){
 
     checkLagSteps();
     double k = min_lag;
-    bool is_positive = false;
+    bool is_positive = min_lag > 0; // no lag 0 to add when starting beyond it
     int i = 0;
     while(k <= max_lag){
         if(k==0){
diff --git a/sacf/sacf.py b/sacf/sacf.py
index c5a1988..ba46bef 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -69,7 +69,7 @@ class SACF:
 
         def lag_generator(min_lag, max_lag, lag_resolution):
             k = min_lag
-            is_positive = False
+            is_positive = min_lag > 0  # no lag 0 to add when starting beyond it
             while k <= max_lag:
                 if k == 0:
                     is_positive = True
-- 
2.43.0


From 1e315f13be89a16557ad4bfd3efe27afd545e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 11/20] fix: check bounds where the steps of a correlation read
 each other's results

The steps are exposed to Python one by one. Called twice, out of order, or with
a CorrelationIterator made for fewer datasets, they read and wrote past the end
of its vectors; they now raise IndexError.
---
 sacf/correlator/Correlator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 195614b..384fce5 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -150,11 +150,11 @@ void Correlator::findCorrelation(CorrelationIterator* cor_it){
     for(int j = 0; j < N_datasets; j++){
         int i = 0;
         for(auto const& weight: cor_it->weights){
-            cor_it->correlation[j] += weight * (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
-                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j)));
+            cor_it->correlation.at(j) += weight * (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
+                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices.at(i), j)));
             i++;
         }
-        cor_it->correlation[j] *= (1 / N[j]);
+        cor_it->correlation.at(j) *= (1 / N[j]);
     }
 }
 
@@ -175,7 +175,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries.at(t_i)));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
@@ -254,7 +254,7 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
     }
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
-        correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
+        correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation.at(j);
     }
 }
 
-- 
2.43.0


From 35156761ebbe504037a72f39b84c86bcf9e0da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 12/20] fix: check the sizes Python may give to iterators and
 storage

CorrelationIterator(k, 0.5) wrote one element into its empty vector, and the
largest timestep numbers overflowed when making room for them.
---
 sacf/correlator/Correlator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 384fce5..54b59dc 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -37,7 +37,7 @@ static void checkStrictlyIncreasing(const std::vector<double>& times){
 CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
     k = k_in;
     correlation = std::vector<double>(vec_size);
-    for(int i = 0; i < vec_size; i++){
+    for(size_t i = 0; i < correlation.size(); i++){
         correlation[i] = 0;
     }
 };
@@ -248,7 +248,9 @@ double Correlator::getNDatasets(){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
-    if(timestep_number < 0){ throw std::out_of_range("lag timestep number must not be negative"); }
+    if(timestep_number < 0 || timestep_number >= std::numeric_limits<int>::max() / 2){
+        throw std::out_of_range("lag timestep number must be a small non-negative number");
+    }
     if(timestep_number >= num_lag_steps){
         cleanCorrelationData(std::max(timestep_number + 1, 2 * num_lag_steps));
     }
-- 
2.43.0


From 47052c5dc349115e6d7358bac1bc7a6141f1ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 13/20] fix: reject None where the correlator needs an object

pybind11 turns None into a null pointer, so Correlator(None) and the
steps called with None for the iterator ended the process.
---
 sacf/correlator/correlator_bindings.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sacf/correlator/correlator_bindings.cpp b/sacf/correlator/correlator_bindings.cpp
index c2c9cff..c801b84 100644
--- a/sacf/correlator/correlator_bindings.cpp
+++ b/sacf/correlator/correlator_bindings.cpp
@@ -19,23 +19,23 @@ PYBIND11_MODULE(correlator, c) {
         ;
 
     py::class_<Correlator>(c, "Correlator")
-        .def(py::init<DataStructure*>(), py::keep_alive<1, 2>())
-        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx)
-        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx)
-        .def("deltaT", &Correlator::deltaT)
-        .def("findCorrelation", &Correlator::findCorrelation)
+        .def(py::init<DataStructure*>(), py::keep_alive<1, 2>(), py::arg().none(false)) // None would be a null pointer
+        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx, py::arg().none(false))
+        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx, py::arg().none(false))
+        .def("deltaT", &Correlator::deltaT, py::arg().none(false))
+        .def("findCorrelation", &Correlator::findCorrelation, py::arg().none(false))
         .def("clearCorrelation", &Correlator::clearCorrelation)
         .def("fractionWeightFunction", &Correlator::fractionWeightFunction)
         .def("fractionSquaredWeightFunction", &Correlator::fractionSquaredWeightFunction)
         .def("gaussianWeightFunction", &Correlator::gaussianWeightFunction)
-        .def("getFractionWeights", &Correlator::getFractionWeights)
-        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights)
-        .def("getGaussianWeights", &Correlator::getGaussianWeights)
+        .def("getFractionWeights", &Correlator::getFractionWeights, py::arg().none(false))
+        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights, py::arg().none(false))
+        .def("getGaussianWeights", &Correlator::getGaussianWeights, py::arg().none(false))
         .def("normalised_timeseries", &Correlator::normalised_timeseries)
         .def("values", &Correlator::values)
         .def("lag_timeseries", &Correlator::lag_timeseries)
         .def("correlations", &Correlator::correlations)
-        .def("addCorrelationData", &Correlator::addCorrelationData)
+        .def("addCorrelationData", &Correlator::addCorrelationData, py::arg().none(false), py::arg())
         .def("cleanCorrelationData", &Correlator::cleanCorrelationData)
         .def("checkLagSteps", &Correlator::checkLagSteps)
         .def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation)
-- 
2.43.0


From ca0698d4731645f4059066ba0d00e3fb76095978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 14/20] fix: store nothing from an iterator with too few
 correlations

addCorrelationData raised only after it had grown the storage and written the
lag, leaving a lag without correlations (or half of them) behind.
---
 sacf/correlator/Correlator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 54b59dc..586c548 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -251,6 +251,9 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
     if(timestep_number < 0 || timestep_number >= std::numeric_limits<int>::max() / 2){
         throw std::out_of_range("lag timestep number must be a small non-negative number");
     }
+    if(col_it->correlation.size() < (size_t) N_datasets){ // nothing is stored then
+        throw std::out_of_range("iterator has fewer correlations than there are datasets");
+    }
     if(timestep_number >= num_lag_steps){
         cleanCorrelationData(std::max(timestep_number + 1, 2 * num_lag_steps));
     }
-- 
2.43.0


From 36c20f8571587d18439ff3aad424279a8cfcb157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:39 +0000
Subject: [PATCH 15/20] fix: a file that cannot be read to its end is not a
 dataset

A read error in the middle of a file ended the loop like the end of the file:
the records read so far were returned as if they were all.
---
 sacf/datastructure/DataStructure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 7a1840e..e08bd2f 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -144,6 +144,7 @@ DataStructure::DataStructure(const std::string &filename){
             }
         }
     }
+    if(file.bad()){ throw BadFileEx; }  // reading failed before the end of the file
     _data = data_in;
     t = t_in;
     if(has_errors){
-- 
2.43.0


From fccb377f3837c9694ade2800d86da2ae5279cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 16/20] fix: resizing the results leaves them alone when memory
 runs out

cleanCorrelationData resized the lags before it allocated the correlations:
when the latter failed, there were more lags than correlations.
---
 sacf/correlator/Correlator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 586c548..fcd92ca 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -266,13 +266,13 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
 void Correlator::cleanCorrelationData(int i){
     // resize to i lag timesteps: clean up extra elements at end of vector not used, or make room for more.
     if(i < 0){ throw std::out_of_range("number of lag timesteps must not be negative"); }
-    correlation_data._timeseries.resize(i);
     std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
+    correlation_data._timeseries.resize(i); // nothing has changed if there was no memory for either
     for(int j = 0; j < N_datasets; j++){
         auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
         std::copy(start, start + std::min(i, num_lag_steps), copy_correlations.begin() + (j * i));
     }
-    correlation_data._correlations = copy_correlations;
+    correlation_data._correlations.swap(copy_correlations);
     num_lag_steps = i;
 }
 
-- 
2.43.0


From c12a6ed3ca1bd756f81eabd5607b6d3a7eb1a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 17/20] fix: gaussian weight keeps its value for very small or
 large times

The squares of time difference and alpha were taken before dividing, so that
with times or alpha below about 1e-162 or above 1e154 the weight was NaN, even
at distance 0.
---
 sacf/correlator/Correlator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index fcd92ca..12231be 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -168,7 +168,8 @@ double Correlator::fractionSquaredWeightFunction(double delta_t){
 }
 
 double Correlator::gaussianWeightFunction(double delta_t){
-    return exp( -((delta_t) * (delta_t)) / (2 * alpha * alpha));
+    double scaled = delta_t / alpha; // the squares of very small or large times are out of range
+    return exp(-(scaled * scaled) / 2);
 }
 
 void Correlator::deltaT(CorrelationIterator* cor_it){
-- 
2.43.0


From bcc939ff0c7c0a2e58309352d841bc1537d8be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:56 +0000
Subject: [PATCH 18/20] fix: reading a mean copies the means of all series

Constructing a correlator asks for the mean of a series once for every value,
and each time copied the means of all of them, so that its cost grew with the
square of the number of series.
---
 sacf/datastructure/DataStructure.cpp | 2 +-
 sacf/include/DataStructure.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index e08bd2f..35daeb8 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -199,7 +199,7 @@ std::vector<double> DataStructure::normalised_timeseries(){ return norm_t; };
 std::vector<double> DataStructure::normalised_data(){ return norm_data; };
 
 
-std::vector<double> DataStructure::mean_data() { return data_mean; };
+const std::vector<double>& DataStructure::mean_data() { return data_mean; };
 double DataStructure::median_time() { return t_median; };
 double DataStructure::max_time() { return t_max; };
 
diff --git a/sacf/include/DataStructure.h b/sacf/include/DataStructure.h
index 48dd71e..d4b2a8d 100644
--- a/sacf/include/DataStructure.h
+++ b/sacf/include/DataStructure.h
@@ -74,7 +74,7 @@ public:
     std::vector< std::vector<double> > err_2d();
     std::vector< std::vector<double> > normalised_data_2d();
 
-    std::vector<double> mean_data();
+    const std::vector<double>& mean_data();
     double median_time() ;
     double max_time();
 };
-- 
2.43.0


From c5a3e361cca6fa7f8804d83ece543f3158ec456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:45 +0000
Subject: [PATCH 19/20] fix: copying or pickling datasets and correlators
 raises TypeError

On PyPy copy, deepcopy and pickle succeeded and gave objects that were never
initialised; using them read foreign memory and ended the process.
---
 sacf/correlator/correlator_bindings.cpp       | 7 +++++++
 sacf/datastructure/datastructure_bindings.cpp | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/sacf/correlator/correlator_bindings.cpp b/sacf/correlator/correlator_bindings.cpp
index c801b84..58cc83c 100644
--- a/sacf/correlator/correlator_bindings.cpp
+++ b/sacf/correlator/correlator_bindings.cpp
@@ -6,6 +6,11 @@
 
 namespace py = pybind11;
 
+// the default copying and pickling (copy, deepcopy, multiprocessing) would give objects that were never initialised
+static py::object notCopied(py::object self, int){
+    throw py::type_error("correlators and their iterators cannot be copied or pickled");
+}
+
 PYBIND11_MODULE(correlator, c) {
 
     py::class_<CorrelationIterator>(c, "CorrelationIterator")
@@ -16,10 +21,12 @@ PYBIND11_MODULE(correlator, c) {
         .def_readonly("selection_indices", &CorrelationIterator::selection_indices)
         .def_readonly("delta_t", &CorrelationIterator::delta_t)
         .def_readonly("weights", &CorrelationIterator::weights)
+        .def("__reduce_ex__", &notCopied)
         ;
 
     py::class_<Correlator>(c, "Correlator")
         .def(py::init<DataStructure*>(), py::keep_alive<1, 2>(), py::arg().none(false)) // None would be a null pointer
+        .def("__reduce_ex__", &notCopied)
         .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx, py::arg().none(false))
         .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx, py::arg().none(false))
         .def("deltaT", &Correlator::deltaT, py::arg().none(false))
diff --git a/sacf/datastructure/datastructure_bindings.cpp b/sacf/datastructure/datastructure_bindings.cpp
index c203403..2b05a4e 100644
--- a/sacf/datastructure/datastructure_bindings.cpp
+++ b/sacf/datastructure/datastructure_bindings.cpp
@@ -21,6 +21,9 @@ PYBIND11_MODULE(datastructure, ds) {
         .def_property_readonly("max_time", &DataStructure::max_time)
         .def_property_readonly("N_datasets", [](const DataStructure &ds){ return ds.N_datasets; })
         .def_property_readonly("M_datapoints", [](const DataStructure &ds){ return ds.M_datapoints; })
+        .def("__reduce_ex__", [](py::object self, int) -> py::object { // by default copies would never be initialised
+            throw py::type_error("datasets cannot be copied or pickled");
+        })
         ;
     py::register_exception<EmptyDataStructureException>(ds, "EmptyDataStructureException");
     py::register_exception<BadDataFileReadException>(ds, "BadDataFileReadException");
-- 
2.43.0


From 34e6d7acb02a49478822254ffec8dafdfcbd01c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:45 +0000
Subject: [PATCH 20/20] fix: a file name with a null character is not cut short
 at it

---
 sacf/datastructure/DataStructure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 35daeb8..a1aba51 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -103,6 +103,7 @@ DataStructure::DataStructure(const std::string &filename){
     /*
      * constructor for DataStructure from file
      */
+    if(filename.find('\0') != std::string::npos){ throw BadFileEx; } // only what precedes the null character would be opened
     bool has_errors = 1;
     bool update_has_errors = 1;
     std::ifstream file(filename, std::ios::in);
-- 
2.43.0


From 36fad2e37b0f8d35683e6e6871d4da43a71a82fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 01/19] fix: compute the normalisation in double precision

The data were truncated to float before forming the sum of squares, so with a
large offset the correlation at lag 0 was not 1 (4e-4 for 1e9 +- 1).
---
 sacf/correlator/Correlator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 26fb9e2..a752dec 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -39,7 +39,7 @@ Correlator::Correlator(DataStructure* ds_in){
     int i = 0;
     for(int j = 0; j < N_datasets; j++){
         for(int i = 0; i < M_datapoints; i++){
-            float X = ds->rdata()->at(ds->getVectorIndex(i, j));
+            double X = ds->rdata()->at(ds->getVectorIndex(i, j));
             if(!std::isnan(X)){
                 N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);
             }
-- 
2.43.0


From 741b88b37d34844dfac16e52562986d3771f0be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 02/19] fix: use std::abs on time differences

Without a C header's using-declaration in scope (a plain gcc/libstdc++ build),
unqualified abs is the int overload, which truncates the differences.
---
 sacf/correlator/Correlator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index a752dec..9856f7e 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -97,8 +97,8 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             if(idx < 0){ idx = 0L; } //to prevent negative 
 
             if(idx != 0){ //i.e. not the first index
-                if (abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
-                    < abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+                if (std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
+                    < std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
             }
             cor_it->selection_indices.push_back(idx);
         }
@@ -124,8 +124,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
         long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
+        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
         cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
         for (int i = 0; i <= max_idx - idx; i++) {
             cor_it->selection_indices[i] = idx + i;
@@ -163,7 +163,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
-- 
2.43.0


From 637b3af2e9271483ea0923035a1c99cdbaf1e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 03/19] fix: keep the shifted times until deltaT has used them

The selection functions cleared them at the end, so deltaT read elements of an
empty vector. They are now cleared before they are filled instead.
---
 sacf/correlator/Correlator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 9856f7e..537672a 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -81,6 +81,7 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
      * returns a vector of indices corresponding to the closest time points for a shifted timeseries (shifted by k)
      * by finding the closest point for every data point.
      */
+    cor_it->shifted_timeseries.clear();
     for(auto const& time_point: *ds->rnormalised_timeseries()){
         if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){
             break;
@@ -103,7 +104,6 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices.push_back(idx);
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
@@ -111,6 +111,7 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
      * returns a vector of indices corresponding to the closest time points for a shifted timeseries (shifted by k)
      * by finding the closest point for the first data point and filling in the rest by index.
      */
+    cor_it->shifted_timeseries.clear();
     for(auto const& time_point: *ds->rnormalised_timeseries()){
         if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back()){
             break;
@@ -131,7 +132,6 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices[i] = idx + i;
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::findCorrelation(CorrelationIterator* cor_it){
-- 
2.43.0


From ce02220417457fb31e1af1c91e569f63efbb9563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 04/19] fix: fast selection looks at the sample before the
 shifted time

lower_bound returns the first sample at or after it, so the nearest one is that
or the one before; idx + 1 is never nearer, and past the end it raised IndexError.
---
 sacf/correlator/Correlator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 537672a..020a4f2 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -125,8 +125,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
         long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
+        if (idx != 0 && std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx - 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
         cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
         for (int i = 0; i <= max_idx - idx; i++) {
             cor_it->selection_indices[i] = idx + i;
-- 
2.43.0


From e50174e144e20d3123d5ae7bda5c0c4d98950db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 05/19] fix: fast selection fills in every remaining index

The loop stopped idx elements short, which left the last samples paired with
sample 0.
---
 sacf/correlator/Correlator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 020a4f2..2c66104 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -123,12 +123,12 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
         long idx = std::max(distance(ds->rnormalised_timeseries()->begin(),
                                 lower_bound(ds->rnormalised_timeseries()->begin(), ds->rnormalised_timeseries()->end(),
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
-        long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
-
         if (idx != 0 && std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx - 1))
             < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
-        cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
-        for (int i = 0; i <= max_idx - idx; i++) {
+        // samples that have no partner left at the end of the time series are dropped
+        cor_it->selection_indices.resize(std::min(cor_it->shifted_timeseries.size(),
+                                                  ds->rnormalised_timeseries()->size() - idx));
+        for (int i = 0; i < cor_it->selection_indices.size(); i++) {
             cor_it->selection_indices[i] = idx + i;
         }
     }
-- 
2.43.0


From 52c5d81ffdd9ce7af5b4e16d7e75fa768f1467e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 06/19] fix: ignore NaN data values in the correlation sum

The mean and the normalisation skip them, but one NaN made every correlation of
its series NaN.
---
 sacf/correlator/Correlator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 2c66104..4867f6d 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -138,8 +138,11 @@ void Correlator::findCorrelation(CorrelationIterator* cor_it){
     for(int j = 0; j < N_datasets; j++){
         int i = 0;
         for(auto const& weight: cor_it->weights){
-            cor_it->correlation[j] += weight * (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
-                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j)));
+            double product = (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
+                             (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j)));
+            if(!std::isnan(product)){  // ignoring any 'NaN' values, as for the mean and N
+                cor_it->correlation[j] += weight * product;
+            }
             i++;
         }
         cor_it->correlation[j] *= (1 / N[j]);
-- 
2.43.0


From b90af1acdf3f944e9d97610411e60d272c49c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 07/19] fix: reject data series that do not match the times

Only the total number of values modulo the number of times was checked: surplus
values were dropped, ragged rows were cut in the wrong places, and missing rows
were read past the end of the data.
---
 sacf/datastructure/DataStructure.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index fa972bf..364c377 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -32,7 +32,7 @@ BadDataInputException BadDataEx;
 
 void DataStructure::setUp(){
     if (_data.empty() || t.empty()){ throw EmptyDSEx; }
-    if (_data.size() % t.size() != 0){ throw BadDataEx; }
+    if (_data.size() != (size_t) (N_datasets * M_datapoints)){ throw BadDataEx; }
     setDataMean();
     settMax();
     norm_t.resize(t.size());
@@ -54,6 +54,9 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
     setUp();
+    for(auto const& data_series: *data_in){
+        if (data_series.size() != t.size()){ throw BadDataEx; }
+    }
 };
 
 DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in,
@@ -71,6 +74,9 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
     setUp();
+    for(auto const& data_series: *data_in){
+        if (data_series.size() != t.size()){ throw BadDataEx; }
+    }
 };
 
 DataStructure::DataStructure(std::vector<double>* t_in, std::vector<double>* data_in):
-- 
2.43.0


From 754ef8490cfed39732f2cae6e51cbcf4c6565de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 08/19] fix: keep one error per row when reading a file

A row whose error is missing or not a number (NaN in the test data) left the
errors one short, so they were misaligned and read past their end; a further
column was taken for errors of the following rows.
---
 sacf/datastructure/DataStructure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 364c377..4a3c161 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -123,12 +123,15 @@ DataStructure::DataStructure(const std::string &filename){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
                     while(linestream >> X_err_val && has_errors){
-                        data_err_in.push_back(X_err_val);
+                        if(data_err_in.size() < data_in.size()){ data_err_in.push_back(X_err_val); }
                         update_has_errors = 0;
                     }
                     if(update_has_errors){
                         has_errors = 0;
                     }
+                    else if(data_err_in.size() < data_in.size()){
+                        data_err_in.push_back(NAN);  // no readable error in this row
+                    }
                 }
             }
         }
-- 
2.43.0


From d55978a0feaa1f4125ac1a652509a13a362ac495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 09/19] fix: reject errors that do not match the data

A shorter error list was accepted, and reading the errors back then read past
the end of it. An empty one still means that there are none.
---
 sacf/datastructure/DataStructure.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 4a3c161..32a0c48 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -33,6 +33,7 @@ BadDataInputException BadDataEx;
 void DataStructure::setUp(){
     if (_data.empty() || t.empty()){ throw EmptyDSEx; }
     if (_data.size() != (size_t) (N_datasets * M_datapoints)){ throw BadDataEx; }
+    if (!err.empty() && err.size() != _data.size()){ throw BadDataEx; }
     setDataMean();
     settMax();
     norm_t.resize(t.size());
@@ -77,6 +78,9 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     for(auto const& data_series: *data_in){
         if (data_series.size() != t.size()){ throw BadDataEx; }
     }
+    for(auto const& data_series: *data_err_in){
+        if (!err.empty() && data_series.size() != t.size()){ throw BadDataEx; }
+    }
 };
 
 DataStructure::DataStructure(std::vector<double>* t_in, std::vector<double>* data_in):
-- 
2.43.0


From a8766a9c83e02303e6cbcbac9619d69794e0a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 10/19] fix: return no lags from the python path when there are
 none

min_lag > max_lag raised UnboundLocalError; the native path returns empty lists.
---
 sacf/sacf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/sacf.py b/sacf/sacf.py
index eeabe2f..2430d74 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -79,6 +79,7 @@ class SACF:
                 yield k
                 k += lag_resolution
 
+        i = -1  # no lags
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
         ):
-- 
2.43.0


From cb20b5bac2bf8af95a3ee98b63a8d5b83683849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 11/19] fix: grow the result storage to the lags computed

It was sized for the default lag grid when the correlator was made, so a finer
or wider grid, or a second computation on the trimmed storage, wrote past the
end; and a default grid too fine to allocate made a coarse one impossible.
---
 sacf/correlator/Correlator.cpp | 20 +++++++++++++++++---
 sacf/include/Correlator.h      |  1 +
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 4867f6d..85cd735 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -49,9 +49,7 @@ Correlator::Correlator(DataStructure* ds_in){
     min_lag = -max_lag;
     lag_resolution = findMinDiff(ds->rnormalised_timeseries());
     alpha = ds->median_time();
-    num_lag_steps = (int) std::floor((max_lag - min_lag) / lag_resolution) + 3; // 3 additional elements at min, 0, max
-    correlation_data._correlations = std::vector<double>(N_datasets * num_lag_steps);
-    correlation_data._timeseries = std::vector<double>(num_lag_steps);
+    num_lag_steps = 0; // storage grows as lags are added
 };
 
 Correlator::Correlator(DataStructure *, DataStructure *) {
@@ -235,7 +233,22 @@ double Correlator::getNDatasets(){
     return N_datasets;
 }
 
+void Correlator::reserveLagSteps(int n){
+    // make room for at least n lags, keeping those stored
+    if(n <= num_lag_steps){ return; }
+    int new_steps = std::max(n, 2 * num_lag_steps);
+    std::vector<double> new_correlations = std::vector<double>(N_datasets * new_steps);
+    for(int j = 0; j < N_datasets; j++){
+        auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
+        std::copy(start, start + num_lag_steps, new_correlations.begin() + (j * new_steps));
+    }
+    correlation_data._correlations = new_correlations;
+    correlation_data._timeseries.resize(new_steps);
+    num_lag_steps = new_steps;
+}
+
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
+    reserveLagSteps(timestep_number + 1);
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
         correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
@@ -244,6 +257,7 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
 
 void Correlator::cleanCorrelationData(int i){
     // clean up extra elements at end of vector not used.
+    reserveLagSteps(i);
     correlation_data._timeseries.resize(i);
     std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
     for(int j = 0; j < N_datasets; j++){
diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 410f2a1..2143df5 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -82,6 +82,7 @@ public:
     void fastSelectionFunctionIdx(CorrelationIterator*);
     void deltaT(CorrelationIterator*);
     void findCorrelation(CorrelationIterator*);
+    void reserveLagSteps(int);
     void addCorrelationData(CorrelationIterator*, int);
     void cleanCorrelationData(int);
     void calculateStandardCorrelation();
-- 
2.43.0


From b9b5ea8c4c39779a7974d8a1b5112740b45e4298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 12/19] fix: clearCorrelation forgets the number of stored lags

correlations() read that many elements of the emptied storage. The temporary is
no longer leaked either.
---
 sacf/include/Correlator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 2143df5..ddb2828 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -88,7 +88,7 @@ public:
     void calculateStandardCorrelation();
     void _calculateStandardCorrelation(double, int);
 
-    void clearCorrelation() {correlation_data = *new CorrelationData; };
+    void clearCorrelation() {correlation_data = CorrelationData(); num_lag_steps = 0; };
 
     double fractionWeightFunction(double);
     double fractionSquaredWeightFunction(double);
-- 
2.43.0


From 893e4c10736999e38a49046661d2b8e4026e7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 13/19] fix: read one sample per row of a file

---
 sacf/datastructure/DataStructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 32a0c48..2fc8c5c 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -123,7 +123,7 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
-                while(linestream >> t_val >> X_val){
+                if(linestream >> t_val >> X_val){  // one sample per row, further columns are ignored
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
                     while(linestream >> X_err_val && has_errors){
-- 
2.43.0


From af5bd907ad850403e713e617ac717fd2006973e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 14/19] fix: a file that cannot be read to its end is rejected,
 not cut short

---
 sacf/datastructure/DataStructure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 2fc8c5c..33f69fd 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -139,6 +139,7 @@ DataStructure::DataStructure(const std::string &filename){
                 }
             }
         }
+        if(file.bad()){ throw BadFileEx; }  // reading failed before the end of the file
     }
     _data = data_in;
     t = t_in;
-- 
2.43.0


From 2508683c6b0475bbcf02c12c62955f5df2e1c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:51 +0000
Subject: [PATCH 15/19] fix: an iterator can be used again for another lag

---
 sacf/correlator/Correlator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 85cd735..9c5de25 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -22,6 +22,14 @@ double findMinDiff(std::vector<double>* arr){
    return diff;
 }
 
+// selecting is the first step of a lag: nothing is left of what the iterator was used for before
+static void startLag(CorrelationIterator* cor_it){
+    cor_it->selection_indices.clear();
+    cor_it->delta_t.clear();
+    cor_it->weights.clear();
+    std::fill(cor_it->correlation.begin(), cor_it->correlation.end(), 0.0);
+}
+
 CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
     k = k_in;
     correlation = std::vector<double>(vec_size);
@@ -79,6 +87,7 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
      * returns a vector of indices corresponding to the closest time points for a shifted timeseries (shifted by k)
      * by finding the closest point for every data point.
      */
+    startLag(cor_it);
     cor_it->shifted_timeseries.clear();
     for(auto const& time_point: *ds->rnormalised_timeseries()){
         if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){
@@ -109,6 +118,7 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
      * returns a vector of indices corresponding to the closest time points for a shifted timeseries (shifted by k)
      * by finding the closest point for the first data point and filling in the rest by index.
      */
+    startLag(cor_it);
     cor_it->shifted_timeseries.clear();
     for(auto const& time_point: *ds->rnormalised_timeseries()){
         if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back()){
-- 
2.43.0


From d44f6e8a4f22d145caedea933e1040706f9549bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:01 +0000
Subject: [PATCH 16/19] fix: reject misuse of the step operations instead of
 going out of bounds

---
 sacf/correlator/Correlator.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 9c5de25..594568b 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -6,6 +6,8 @@
 #include <cmath>
 #include <iostream>
 #include <cfloat>
+#include <climits>
+#include <stdexcept>
 
 double findMinDiff(std::vector<double>* arr){
     // Initialize difference as infinite
@@ -31,9 +33,10 @@ static void startLag(CorrelationIterator* cor_it){
 }
 
 CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
+    if(!(vec_size >= 0 && vec_size <= INT_MAX)){ throw std::invalid_argument("invalid number of data sets"); }
     k = k_in;
     correlation = std::vector<double>(vec_size);
-    for(int i = 0; i < vec_size; i++){
+    for(int i = 0; i < (int) correlation.size(); i++){
         correlation[i] = 0;
     }
 };
@@ -143,6 +146,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
 }
 
 void Correlator::findCorrelation(CorrelationIterator* cor_it){
+    if(cor_it->correlation.size() < N_datasets){ throw std::out_of_range("iterator made for fewer data sets"); }
+    if(cor_it->selection_indices.size() < cor_it->weights.size()){ throw std::out_of_range("more weights than selected samples"); }
     for(int j = 0; j < N_datasets; j++){
         int i = 0;
         for(auto const& weight: cor_it->weights){
@@ -172,6 +177,7 @@ double Correlator::gaussianWeightFunction(double delta_t){
 
 void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
+    if(cor_it->shifted_timeseries.size() < cor_it->selection_indices.size()){ throw std::out_of_range("no shifted times, select first"); }
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
         cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
@@ -258,6 +264,8 @@ void Correlator::reserveLagSteps(int n){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
+    if(timestep_number < 0 || timestep_number == INT_MAX){ throw std::out_of_range("invalid position of a lag"); }
+    if(col_it->correlation.size() < N_datasets){ throw std::out_of_range("iterator made for fewer data sets"); }
     reserveLagSteps(timestep_number + 1);
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
-- 
2.43.0


From 07c3eb33c85530618da0a5ed754b401ad01c66f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:24 +0000
Subject: [PATCH 17/19] fix: None in place of an iterator or data set is an
 error, not a crash

---
 sacf/correlator/Correlator.cpp          |  1 +
 sacf/correlator/correlator_bindings.cpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 594568b..566a9ba 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -42,6 +42,7 @@ CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
 };
 
 Correlator::Correlator(DataStructure* ds_in){
+    if(ds_in == nullptr){ throw std::invalid_argument("a correlator needs a data structure"); }
     ds = ds_in;
     N_datasets = ds->N_datasets;
     M_datapoints = ds->M_datapoints;
diff --git a/sacf/correlator/correlator_bindings.cpp b/sacf/correlator/correlator_bindings.cpp
index 12d2a3b..f7439a0 100644
--- a/sacf/correlator/correlator_bindings.cpp
+++ b/sacf/correlator/correlator_bindings.cpp
@@ -20,22 +20,22 @@ PYBIND11_MODULE(correlator, c) {
 
     py::class_<Correlator>(c, "Correlator")
         .def(py::init<DataStructure*>(), py::keep_alive<1, 2>())
-        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx)
-        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx)
-        .def("deltaT", &Correlator::deltaT)
-        .def("findCorrelation", &Correlator::findCorrelation)
+        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx, py::arg("iterator").none(false))
+        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx, py::arg("iterator").none(false))
+        .def("deltaT", &Correlator::deltaT, py::arg("iterator").none(false))
+        .def("findCorrelation", &Correlator::findCorrelation, py::arg("iterator").none(false))
         .def("clearCorrelation", &Correlator::clearCorrelation)
         .def("fractionWeightFunction", &Correlator::fractionWeightFunction)
         .def("fractionSquaredWeightFunction", &Correlator::fractionSquaredWeightFunction)
         .def("gaussianWeightFunction", &Correlator::gaussianWeightFunction)
-        .def("getFractionWeights", &Correlator::getFractionWeights)
-        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights)
-        .def("getGaussianWeights", &Correlator::getGaussianWeights)
+        .def("getFractionWeights", &Correlator::getFractionWeights, py::arg("iterator").none(false))
+        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights, py::arg("iterator").none(false))
+        .def("getGaussianWeights", &Correlator::getGaussianWeights, py::arg("iterator").none(false))
         .def("normalised_timeseries", &Correlator::normalised_timeseries)
         .def("values", &Correlator::values)
         .def("lag_timeseries", &Correlator::lag_timeseries)
         .def("correlations", &Correlator::correlations)
-        .def("addCorrelationData", &Correlator::addCorrelationData)
+        .def("addCorrelationData", &Correlator::addCorrelationData, py::arg("iterator").none(false), py::arg("position"))
         .def("cleanCorrelationData", &Correlator::cleanCorrelationData)
         .def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation)
         .def_property("max_lag", &Correlator::getMaxLag, &Correlator::setMaxLag)
-- 
2.43.0


From 95c036305b1574a4230c7fd3b9eb9abd956292b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:34 +0000
Subject: [PATCH 18/19] fix: a lag resolution that does not advance is an
 error, not an endless loop

---
 sacf/correlator/Correlator.cpp | 3 +++
 sacf/sacf.py                   | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 566a9ba..be136f9 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -289,6 +289,9 @@ void Correlator::cleanCorrelationData(int i){
 
 void Correlator::calculateStandardCorrelation(){
 
+    if(min_lag <= max_lag && !(min_lag + lag_resolution > min_lag && max_lag + lag_resolution > max_lag)){
+        throw std::invalid_argument("lag_resolution does not lead from min_lag to max_lag");
+    }
     double k = min_lag;
     bool is_positive = false;
     int i = 0;
diff --git a/sacf/sacf.py b/sacf/sacf.py
index 2430d74..529cdad 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -79,6 +79,12 @@ class SACF:
                 yield k
                 k += lag_resolution
 
+        if corr.min_lag <= corr.max_lag and not (
+            corr.min_lag + corr.lag_resolution > corr.min_lag
+            and corr.max_lag + corr.lag_resolution > corr.max_lag
+        ):
+            raise ValueError("lag_resolution does not lead from min_lag to max_lag")
+
         i = -1  # no lags
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
-- 
2.43.0


From ca74d56b47d6cd130192388c002e67370ea9c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:02 +0000
Subject: [PATCH 19/19] fix: a lag that rounding holds in place ends the walk
 with an error

---
 sacf/correlator/Correlator.cpp | 1 +
 sacf/sacf.py                   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index be136f9..8226b00 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -306,6 +306,7 @@ void Correlator::calculateStandardCorrelation(){
             i++;
         }
         _calculateStandardCorrelation(k, i);
+        if(!(k + lag_resolution > k)){ throw std::invalid_argument("lag_resolution does not lead from min_lag to max_lag"); }
         k += lag_resolution;
         i++;
     }
diff --git a/sacf/sacf.py b/sacf/sacf.py
index 529cdad..cb06829 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -77,6 +77,10 @@ class SACF:
                     is_positive = True
                     yield 0
                 yield k
+                if not k + lag_resolution > k:
+                    raise ValueError(
+                        "lag_resolution does not lead from min_lag to max_lag"
+                    )
                 k += lag_resolution
 
         if corr.min_lag <= corr.max_lag and not (
-- 
2.43.0


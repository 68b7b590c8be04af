From ab72dcd8daa0792b1839a40e4a932f289a9484ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 01/15] fix: use std::abs so time differences are not truncated
 to integers

Unqualified abs() resolves to the C int abs(int) unless some other header
happens to export the double overload globally; nearest-sample selection and
delta-t were then computed on truncated integers.
---
 sacf/correlator/Correlator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 26fb9e2..abee40d 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -97,8 +97,8 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             if(idx < 0){ idx = 0L; } //to prevent negative 
 
             if(idx != 0){ //i.e. not the first index
-                if (abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
-                    < abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+                if (std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
+                    < std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
             }
             cor_it->selection_indices.push_back(idx);
         }
@@ -124,8 +124,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
         long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
+        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
         cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
         for (int i = 0; i <= max_idx - idx; i++) {
             cor_it->selection_indices[i] = idx + i;
@@ -163,7 +163,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
-- 
2.43.0


From e7fba6b66fbf47b15fc8f57da2941fffea4b8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 02/15] fix: keep shifted times until deltaT has used them

Both selection functions emptied shifted_timeseries before deltaT read it
through operator[] (undefined behaviour, aborts with _GLIBCXX_ASSERTIONS).
deltaT already clears it once it is done.
---
 sacf/correlator/Correlator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index abee40d..0f3f14d 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -103,7 +103,6 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices.push_back(idx);
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
@@ -131,7 +130,6 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices[i] = idx + i;
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::findCorrelation(CorrelationIterator* cor_it){
-- 
2.43.0


From c7a9721ec64c98114e3f83a679c00e961b0b5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 03/15] fix: accumulate the variance in double precision

Data values were narrowed to float before the mean was subtracted, so for
data with a large offset the lag-zero correlation was not 1.
---
 sacf/correlator/Correlator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 0f3f14d..5070748 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -39,7 +39,7 @@ Correlator::Correlator(DataStructure* ds_in){
     int i = 0;
     for(int j = 0; j < N_datasets; j++){
         for(int i = 0; i < M_datapoints; i++){
-            float X = ds->rdata()->at(ds->getVectorIndex(i, j));
+            double X = ds->rdata()->at(ds->getVectorIndex(i, j));
             if(!std::isnan(X)){
                 N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);
             }
-- 
2.43.0


From 73f122cb4d96aeffc0878b4164713e30b6352a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 04/15] fix: size the result storage by the lags requested

The storage was sized once, in the constructor, from the default limits and
resolution. Any finer resolution or wider range wrote past its end (heap
corruption, lost lags), recalculating after a smaller calculation or after
clearCorrelation() did the same, and correlations() after clearCorrelation()
read freed memory. A default grid too fine to allocate also made the
correlator unusable even with an explicit, coarser resolution.
---
 sacf/correlator/Correlator.cpp | 22 +++++++---------------
 sacf/include/Correlator.h      |  8 +++++---
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 5070748..75d9837 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -49,9 +49,7 @@ Correlator::Correlator(DataStructure* ds_in){
     min_lag = -max_lag;
     lag_resolution = findMinDiff(ds->rnormalised_timeseries());
     alpha = ds->median_time();
-    num_lag_steps = (int) std::floor((max_lag - min_lag) / lag_resolution) + 3; // 3 additional elements at min, 0, max
-    correlation_data._correlations = std::vector<double>(N_datasets * num_lag_steps);
-    correlation_data._timeseries = std::vector<double>(num_lag_steps);
+    clearCorrelation();
 };
 
 Correlator::Correlator(DataStructure *, DataStructure *) {
@@ -67,11 +65,7 @@ std::vector<double> Correlator::lag_timeseries() { return correlation_data._time
 std::vector< std::vector<double> > Correlator::correlations() {
     std::vector< std::vector<double> > correlations = std::vector< std::vector<double> >(N_datasets);
     for(int j = 0; j < N_datasets; j++){
-        std::vector<double> dataset = std::vector<double>(num_lag_steps);
-        for(int i = 0; i < num_lag_steps; i++){
-            dataset[i] = correlation_data._correlations[i + j*num_lag_steps];
-        }
-        correlations[j] = dataset;
+        correlations[j] = correlation_data._correlations[j];
     }
     return correlations;
 };
@@ -231,22 +225,20 @@ double Correlator::getNDatasets(){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
-    correlation_data._timeseries[timestep_number] = col_it->k;
+    // storage grows with the lags actually requested: limits and resolution may change after construction.
+    if(timestep_number >= (long) correlation_data._timeseries.size()){ cleanCorrelationData(timestep_number + 1); }
+    correlation_data._timeseries.at(timestep_number) = col_it->k;
     for(int j = 0; j < N_datasets; j++){
-        correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
+        correlation_data._correlations[j].at(timestep_number) = col_it->correlation.at(j);
     }
 }
 
 void Correlator::cleanCorrelationData(int i){
     // clean up extra elements at end of vector not used.
     correlation_data._timeseries.resize(i);
-    std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
     for(int j = 0; j < N_datasets; j++){
-        auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
-        std::copy(start, start + i, copy_correlations.begin() + (j * i));
+        correlation_data._correlations[j].resize(i);
     }
-    correlation_data._correlations = copy_correlations;
-    num_lag_steps = i;
 }
 
 void Correlator::calculateStandardCorrelation(){
diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 410f2a1..62cd100 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -53,7 +53,7 @@ std::vector<T> flatten(const std::vector<std::vector<T>>& v) {
 }
 
 struct CorrelationData{
-    std::vector<double> _correlations; std::vector<double> _timeseries;
+    std::vector< std::vector<double> > _correlations; std::vector<double> _timeseries;
 };
 
 class Correlator;
@@ -72,7 +72,6 @@ class Correlator{
     double alpha; // characteristic length scale of weight functions
     double N_datasets;
     double M_datapoints;
-    int num_lag_steps;
 
 public:
     explicit Correlator(DataStructure*);
@@ -87,7 +86,10 @@ public:
     void calculateStandardCorrelation();
     void _calculateStandardCorrelation(double, int);
 
-    void clearCorrelation() {correlation_data = *new CorrelationData; };
+    void clearCorrelation() {
+        correlation_data = CorrelationData();
+        correlation_data._correlations.resize(N_datasets);
+    };
 
     double fractionWeightFunction(double);
     double fractionSquaredWeightFunction(double);
-- 
2.43.0


From 1d7561e71e033e676832e5170f2eb616f2a76c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 05/15] fix: reject a lag resolution that is not positive

The lag loop never ends for a zero or negative resolution (given explicitly,
or derived from repeated or unordered times): it ran until memory was
corrupted or exhausted.
---
 sacf/correlator/Correlator.cpp | 2 ++
 sacf/sacf.py                   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 75d9837..799b67f 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -6,6 +6,7 @@
 #include <cmath>
 #include <iostream>
 #include <cfloat>
+#include <stdexcept>
 
 double findMinDiff(std::vector<double>* arr){
     // Initialize difference as infinite
@@ -243,6 +244,7 @@ void Correlator::cleanCorrelationData(int i){
 
 void Correlator::calculateStandardCorrelation(){
 
+    if(!(lag_resolution > 0)){ throw std::invalid_argument("lag resolution must be positive"); }
     double k = min_lag;
     bool is_positive = false;
     int i = 0;
diff --git a/sacf/sacf.py b/sacf/sacf.py
index eeabe2f..3f75f17 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -67,6 +67,9 @@ class SACF:
             weight_function (str, optional): Weight Function. Defaults to "fractional".
         """
 
+        if not corr.lag_resolution > 0:
+            raise ValueError("lag resolution must be positive")
+
         def lag_generator(min_lag, max_lag, lag_resolution):
             k = min_lag
             is_positive = False
-- 
2.43.0


From c25c136fc2034118e4f36075651ff7507805eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 06/15] fix: return an empty correlation for an empty lag range
 in the python path

With min_lag above max_lag the compiled path returns empty lists, while the
python path raised UnboundLocalError.
---
 sacf/sacf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sacf/sacf.py b/sacf/sacf.py
index 3f75f17..18b1dc1 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -82,6 +82,7 @@ class SACF:
                 yield k
                 k += lag_resolution
 
+        n_lags = 0
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
         ):
@@ -91,8 +92,9 @@ class SACF:
             WEIGHT_FUNCTIONS[weight_function](corr, col_it)
             corr.findCorrelation(col_it)
             corr.addCorrelationData(col_it, i)
+            n_lags = i + 1
 
-        corr.cleanCorrelationData(i + 1)
+        corr.cleanCorrelationData(n_lags)
 
     def autocorrelation(
         self,
-- 
2.43.0


From da4974ce9c5eef2384bb6f477422747d37c92add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 07/15] fix: fast selection starts at the nearest point and
 fills in by index

The first shifted point was compared with the point after the one found, which
is never nearer and does not exist at the end of the series (IndexError), and
only part of the indices were filled in: the rest stayed 0 and paired points
with the first sample whatever the lag.
---
 sacf/correlator/Correlator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 799b67f..2b45d0d 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -116,12 +116,14 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
         long idx = std::max(distance(ds->rnormalised_timeseries()->begin(),
                                 lower_bound(ds->rnormalised_timeseries()->begin(), ds->rnormalised_timeseries()->end(),
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
-        long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
-        cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
-        for (int i = 0; i <= max_idx - idx; i++) {
+        if (idx != 0 && std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx - 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+        // as many consecutive points as there are, for points not shifted beyond the time series
+        long n_selected = std::min((long) cor_it->shifted_timeseries.size(),
+                                   (long) ds->rnormalised_timeseries()->size() - idx);
+        cor_it->selection_indices.resize(n_selected);
+        for (long i = 0; i < n_selected; i++) {
             cor_it->selection_indices[i] = idx + i;
         }
     }
-- 
2.43.0


From 553d5b820454aa002efc8382e08efe10e3f7fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 08/15] fix: read one sample and one error from each line of a
 data file

A row without a readable error (e.g. NaN, as in one of the test files) added
no error, so errors() was misaligned and read out of bounds; further columns
were taken as more errors, or as more samples.
---
 sacf/datastructure/DataStructure.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index fa972bf..f0e8620 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -91,8 +91,7 @@ DataStructure::DataStructure(const std::string &filename){
     /*
      * constructor for DataStructure from file
      */
-    bool has_errors = 1;
-    bool update_has_errors = 1;
+    bool has_errors = 0;
     std::ifstream file(filename, std::ios::in);
     if(file.fail()){
         throw BadFileEx;
@@ -113,16 +112,15 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
-                while(linestream >> t_val >> X_val){
+                if(linestream >> t_val >> X_val){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
-                    while(linestream >> X_err_val && has_errors){
-                        data_err_in.push_back(X_err_val);
-                        update_has_errors = 0;
-                    }
-                    if(update_has_errors){
-                        has_errors = 0;
+                    // the third column is the error, any further columns are ignored
+                    if(linestream >> X_err_val){
+                        has_errors = 1;
                     }
+                    else { X_err_val = std::nan(""); }  // missing or NaN: keep one error per data point
+                    data_err_in.push_back(X_err_val);
                 }
             }
         }
-- 
2.43.0


From 4f81e1a2ed2e45fb704af92f4cdec7b334e83187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 09/15] fix: reject values or errors that do not match the time
 points

Only the total number of values modulo the number of time points was checked:
surplus values were dropped, ragged rows were mixed up or read out of bounds,
and errors of the wrong length were read out of bounds.
---
 sacf/datastructure/DataStructure.cpp | 14 +++++++++++++-
 sacf/include/DataStructure.h         |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index f0e8620..fd2cdb3 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -32,7 +32,8 @@ BadDataInputException BadDataEx;
 
 void DataStructure::setUp(){
     if (_data.empty() || t.empty()){ throw EmptyDSEx; }
-    if (_data.size() % t.size() != 0){ throw BadDataEx; }
+    if (_data.size() != (size_t) (N_datasets * M_datapoints)){ throw BadDataEx; }
+    if (!err.empty() && err.size() != _data.size()){ throw BadDataEx; }
     setDataMean();
     settMax();
     norm_t.resize(t.size());
@@ -41,6 +42,14 @@ void DataStructure::setUp(){
     settMedian();
 }
 
+void DataStructure::checkRows(const std::vector< std::vector<double> > &rows){
+    // every series needs one value per time point: a matching total is not enough, e.g. for ragged rows
+    if (_data.empty() || t.empty()){ throw EmptyDSEx; }
+    for(auto const& row: rows){
+        if (row.size() != t.size()){ throw BadDataEx; }
+    }
+}
+
 long DataStructure::getVectorIndex(int i, int j){
     return (long) i + j * M_datapoints;
 }
@@ -53,6 +62,7 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     }
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
+    checkRows(*data_in);
     setUp();
 };
 
@@ -70,6 +80,8 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     }
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
+    checkRows(*data_in);
+    if (!err.empty()){ checkRows(*data_err_in); }
     setUp();
 };
 
diff --git a/sacf/include/DataStructure.h b/sacf/include/DataStructure.h
index 48dd71e..e5b20ca 100644
--- a/sacf/include/DataStructure.h
+++ b/sacf/include/DataStructure.h
@@ -41,6 +41,7 @@ class DataStructure{
     void calcNormt();
     void calcNormData();
     void setUp();
+    void checkRows(const std::vector< std::vector<double> >&);
 
 public:
     explicit DataStructure(const std::string &filename);
-- 
2.43.0


From 64a37349eea112119c61437ea91277e6579eb1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 10/15] fix: keep columns apart when a field of a csv file is
 empty

With the value missing ("1,,2") the error was loaded as the value, and with
the time missing (",1,2") the value was loaded as the time. Such a line has no
readable sample and is now skipped, like one whose value is NaN.
---
 sacf/datastructure/DataStructure.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index fd2cdb3..1ef31e8 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <numeric>
 #include <algorithm>
+#include <cctype>
 #include <cmath>
 
 #include "DataStructure.h"
@@ -119,11 +120,21 @@ DataStructure::DataStructure(const std::string &filename){
                 double t_val;
                 double X_err_val;
 
-                if(line.find_first_of(",") != std::string::npos){
-                    std::replace(line.begin(), line.end(), ',', ' ');  // replace commas with spaces
+                // replace commas with spaces, marking empty fields so that the following ones stay in their column
+                std::string fields;
+                bool empty_field = 1;
+                for(char const c: line){
+                    if(c == ','){
+                        fields += empty_field ? " - " : " ";
+                        empty_field = 1;
+                    }
+                    else {
+                        if(!std::isspace((unsigned char) c)){ empty_field = 0; }
+                        fields += c;
+                    }
                 }
 
-                std::stringstream linestream(line);
+                std::stringstream linestream(fields);
                 if(linestream >> t_val >> X_val){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
-- 
2.43.0


From 603b77706a81027ab210e0c4acfc5a7571f8d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 11/15] fix: a file field that only starts like a number is not
 a number

---
 sacf/datastructure/DataStructure.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 1ef31e8..ccd462f 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -100,6 +100,14 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector<double>* dat
     setUp();
 };
 
+static bool readNumber(std::istream &in, double &number){
+    // the next field, if all of it is a number: not one that only starts like one, e.g. a date
+    std::string field;
+    if(!(in >> field)){ return false; }
+    std::istringstream fieldstream(field);
+    return (fieldstream >> number) && fieldstream.peek() == std::istringstream::traits_type::eof();
+}
+
 DataStructure::DataStructure(const std::string &filename){
     /*
      * constructor for DataStructure from file
@@ -135,11 +143,11 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(fields);
-                if(linestream >> t_val >> X_val){
+                if(readNumber(linestream, t_val) && readNumber(linestream, X_val)){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
                     // the third column is the error, any further columns are ignored
-                    if(linestream >> X_err_val){
+                    if(readNumber(linestream, X_err_val)){
                         has_errors = 1;
                     }
                     else { X_err_val = std::nan(""); }  // missing or NaN: keep one error per data point
-- 
2.43.0


From 306f7d3752ec7db480383347833c7bcff92dad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:37 +0000
Subject: [PATCH 12/15] fix: gaussian weight of a tiny length scale was
 not-a-number at an exact match

---
 sacf/correlator/Correlator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 2b45d0d..9d8624c 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -151,7 +151,8 @@ double Correlator::fractionSquaredWeightFunction(double delta_t){
 }
 
 double Correlator::gaussianWeightFunction(double delta_t){
-    return exp( -((delta_t) * (delta_t)) / (2 * alpha * alpha));
+    // of the ratio, as the square of a small length scale vanishes: 0/0 for no mismatch
+    return exp(-(delta_t / alpha) * (delta_t / alpha) / 2);
 }
 
 void Correlator::deltaT(CorrelationIterator* cor_it){
-- 
2.43.0


From 8b4ca2c3c3a4151be915cf8e8710a256747593e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:57 +0000
Subject: [PATCH 13/15] fix: a range of lags that never ends is refused instead
 of looping for ever

With an infinite limit, or a resolution lost in the rounding of the limits,
both routes kept appending the same lag until memory ran out.
---
 sacf/correlator/Correlator.cpp | 4 ++++
 sacf/sacf.py                   | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 9d8624c..8640303 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -248,6 +248,10 @@ void Correlator::cleanCorrelationData(int i){
 void Correlator::calculateStandardCorrelation(){
 
     if(!(lag_resolution > 0)){ throw std::invalid_argument("lag resolution must be positive"); }
+    // steps lost in rounding (or infinite limits) would go on for ever
+    if(min_lag <= max_lag && !(min_lag + lag_resolution / 2 > min_lag && max_lag + lag_resolution / 2 > max_lag)){
+        throw std::invalid_argument("lag resolution too small for the range of lags");
+    }
     double k = min_lag;
     bool is_positive = false;
     int i = 0;
diff --git a/sacf/sacf.py b/sacf/sacf.py
index 18b1dc1..262f249 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -69,6 +69,13 @@ class SACF:
 
         if not corr.lag_resolution > 0:
             raise ValueError("lag resolution must be positive")
+        # steps lost in rounding (or infinite limits) would go on for ever
+        half_step = corr.lag_resolution / 2
+        if corr.min_lag <= corr.max_lag and not (
+            corr.min_lag + half_step > corr.min_lag
+            and corr.max_lag + half_step > corr.max_lag
+        ):
+            raise ValueError("lag resolution too small for the range of lags")
 
         def lag_generator(min_lag, max_lag, lag_resolution):
             k = min_lag
-- 
2.43.0


From 015ca26a85c41e4bfcf9dd7319776fcecc593013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 14/15] fix: a lag iterator made for another number of datasets
 wrote outside its storage

findCorrelation and addCorrelationData trusted the size given by the caller;
stages called out of order read beyond the selection and the shifted times.
---
 sacf/correlator/Correlator.cpp | 18 ++++++++++++------
 sacf/include/Correlator.h      |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 8640303..fb87288 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -25,10 +25,7 @@ double findMinDiff(std::vector<double>* arr){
 
 CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
     k = k_in;
-    correlation = std::vector<double>(vec_size);
-    for(int i = 0; i < vec_size; i++){
-        correlation[i] = 0;
-    }
+    correlation = std::vector<double>(vec_size);  // zeros
 };
 
 Correlator::Correlator(DataStructure* ds_in){
@@ -129,12 +126,20 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
     }
 }
 
+void Correlator::checkIterator(CorrelationIterator* cor_it){
+    // an iterator has room for the datasets it was made for
+    if(cor_it->correlation.size() != (size_t) N_datasets){
+        throw std::invalid_argument("lag iterator was made for another number of datasets");
+    }
+}
+
 void Correlator::findCorrelation(CorrelationIterator* cor_it){
+    checkIterator(cor_it);
     for(int j = 0; j < N_datasets; j++){
         int i = 0;
         for(auto const& weight: cor_it->weights){
             cor_it->correlation[j] += weight * (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
-                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j)));
+                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices.at(i), j)));
             i++;
         }
         cor_it->correlation[j] *= (1 / N[j]);
@@ -159,7 +164,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries.at(t_i)));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
@@ -229,6 +234,7 @@ double Correlator::getNDatasets(){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
+    checkIterator(col_it);
     // storage grows with the lags actually requested: limits and resolution may change after construction.
     if(timestep_number >= (long) correlation_data._timeseries.size()){ cleanCorrelationData(timestep_number + 1); }
     correlation_data._timeseries.at(timestep_number) = col_it->k;
diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 62cd100..9ba34a6 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -80,6 +80,7 @@ public:
     void naturalSelectionFunctionIdx(CorrelationIterator*);
     void fastSelectionFunctionIdx(CorrelationIterator*);
     void deltaT(CorrelationIterator*);
+    void checkIterator(CorrelationIterator*);
     void findCorrelation(CorrelationIterator*);
     void addCorrelationData(CorrelationIterator*, int);
     void cleanCorrelationData(int);
-- 
2.43.0


From dba5ebc2ea355bc105782f3df23654f1bc794574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 15/15] fix: None as data object or lag iterator is a
 TypeError, not a segmentation fault

---
 sacf/correlator/correlator_bindings.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sacf/correlator/correlator_bindings.cpp b/sacf/correlator/correlator_bindings.cpp
index 12d2a3b..0a34c45 100644
--- a/sacf/correlator/correlator_bindings.cpp
+++ b/sacf/correlator/correlator_bindings.cpp
@@ -19,23 +19,23 @@ PYBIND11_MODULE(correlator, c) {
         ;
 
     py::class_<Correlator>(c, "Correlator")
-        .def(py::init<DataStructure*>(), py::keep_alive<1, 2>())
-        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx)
-        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx)
-        .def("deltaT", &Correlator::deltaT)
-        .def("findCorrelation", &Correlator::findCorrelation)
+        .def(py::init<DataStructure*>(), py::arg().none(false), py::keep_alive<1, 2>())
+        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx, py::arg().none(false))
+        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx, py::arg().none(false))
+        .def("deltaT", &Correlator::deltaT, py::arg().none(false))
+        .def("findCorrelation", &Correlator::findCorrelation, py::arg().none(false))
         .def("clearCorrelation", &Correlator::clearCorrelation)
         .def("fractionWeightFunction", &Correlator::fractionWeightFunction)
         .def("fractionSquaredWeightFunction", &Correlator::fractionSquaredWeightFunction)
         .def("gaussianWeightFunction", &Correlator::gaussianWeightFunction)
-        .def("getFractionWeights", &Correlator::getFractionWeights)
-        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights)
-        .def("getGaussianWeights", &Correlator::getGaussianWeights)
+        .def("getFractionWeights", &Correlator::getFractionWeights, py::arg().none(false))
+        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights, py::arg().none(false))
+        .def("getGaussianWeights", &Correlator::getGaussianWeights, py::arg().none(false))
         .def("normalised_timeseries", &Correlator::normalised_timeseries)
         .def("values", &Correlator::values)
         .def("lag_timeseries", &Correlator::lag_timeseries)
         .def("correlations", &Correlator::correlations)
-        .def("addCorrelationData", &Correlator::addCorrelationData)
+        .def("addCorrelationData", &Correlator::addCorrelationData, py::arg().none(false), py::arg())
         .def("cleanCorrelationData", &Correlator::cleanCorrelationData)
         .def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation)
         .def_property("max_lag", &Correlator::getMaxLag, &Correlator::setMaxLag)
-- 
2.43.0


From d14430365df9c8b561874ef8e39e978dda51162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 01/19] fix: normalize misses the last column of odd-length
 series

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d883352..05d9821 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -227,7 +227,7 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
     data_t x, y, z;
 
     // start at 0 if even, 1 if odd
-    if ((i = (length % 2 != 0)))
+    if ((i = (this->itemLength % 2 != 0)))
     {
       if (data[ts * this->itemLength] < MIN)
       {
-- 
2.43.0


From d699a7c53372bcac3c801d40ea8b804b2521f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 02/19] fix: cleared or reloaded datasets stay reported as
 normalized

---
 src/TimeSeriesSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 05d9821..8d21456 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -187,6 +187,7 @@ void TimeSeriesSet::clearData()
   this->data = nullptr;
   this->itemCount = 0;
   this->itemLength = 0;
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From dd8c43f123600f7142cd8636d5b369eca7370bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 03/19] fix: arrays are released with delete instead of
 delete[]

---
 src/TimeSeries.cpp    | 2 +-
 src/TimeSeriesSet.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 707dda2..fafb16d 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -50,7 +50,7 @@ TimeSeries::~TimeSeries()
   // if object allocated the data, delete it
   if (this->isOwnerOfData)
   {
-    delete this->data;
+    delete[] this->data;
     this->data = nullptr;
   }
   delete[] keoghLower;
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 8d21456..30faeef 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -305,7 +305,7 @@ void TimeSeriesSet::PAA(int n)
     doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
       this->itemLength, n);
   }
-  delete this->data;
+  delete[] this->data;
   this->data = new_data;
   this->itemLength = newItemLength;
 }
-- 
2.43.0


From 295a9da86d868c8880b98fc70b902228e7d110ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 04/19] fix: PAA gives an empty dataset a series length of one

---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 30faeef..039a3bd 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -31,7 +31,7 @@ int countNumberOfLines(std::ifstream& f)
 
 inline int calcPAALength(int srcLength, int n)
 {
-  return (srcLength - 1) / n + 1;
+  return srcLength > 0 ? (srcLength - 1) / n + 1 : 0;
 }
 
 void doPAA(const data_t* source, data_t* dest, int srcLength, int n)
-- 
2.43.0


From 676f10a7e549dc5becb3fbd46e4a8c072a293f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 05/19] fix: assigning series leaks data, breaks on
 self-assignment and keeps a stale envelope

---
 src/TimeSeries.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index fafb16d..c7b42e8 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -14,6 +14,10 @@ namespace onex {
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  keoghCacheValid = false;
   if (isOwnerOfData) {
     delete[] this->data;
   }
@@ -35,6 +39,13 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  keoghCacheValid = false;
+  if (isOwnerOfData) {
+    delete[] this->data;
+  }
   data = other.data;
   index = other.index;
   start = other.start;
-- 
2.43.0


From ef4e9a10215db9a9ff640aebe7f6bedd9e85dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 06/19] fix: candidates less than 1 apart are ranked as equally
 distant

---
 src/TimeSeries.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 0a20713..3ec8b97 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -203,7 +203,7 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (abs(dist - rhs.dist) < EPS)
+    if (std::abs(dist - rhs.dist) < EPS)
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From 227b3b4bbc8f8f9f0ad33adea7b9c8f03bb5694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 07/19] fix: division by zero when grouping progress of few
 series is logged

---
 src/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 08949c2..531b9a6 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -64,7 +64,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From 73bb3b32ab5ede85a8b8d26efbcd9009ac3bbfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 08/19] fix: queries longer than the grouped series read out of
 bounds

---
 src/GlobalGroupSpace.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 5ca33e6..e09d229 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -76,6 +76,9 @@ candidate_time_series_t GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       bestSoFarDist = candidate.second;
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw OnexException("No group has a length comparable to the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -116,11 +119,13 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
 vector<int> generateTraverseOrder(int queryLength, int totalLength)
 {
   vector<int> order;
-  int low = queryLength - 1;
+  int low = min(queryLength - 1, totalLength);
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
-- 
2.43.0


From 02132c28d7b3170ec6fad00ffba315575744bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 09/19] fix: groups survive changes of the data they were built
 from

---
 src/GroupableTimeSeriesSet.cpp | 19 +++++++++++++++++++
 src/GroupableTimeSeriesSet.hpp |  7 +++++++
 src/TimeSeriesSet.hpp          |  6 +++---
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 96df068..b594c78 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -18,6 +18,25 @@ GroupableTimeSeriesSet::~GroupableTimeSeriesSet()
   this->reset();
 }
 
+void GroupableTimeSeriesSet::clearData()
+{
+  this->reset();
+  TimeSeriesSet::clearData();
+}
+
+std::pair<data_t, data_t> GroupableTimeSeriesSet::normalize()
+{
+  std::pair<data_t, data_t> minAndMax = TimeSeriesSet::normalize();
+  this->reset();
+  return minAndMax;
+}
+
+void GroupableTimeSeriesSet::PAA(int n)
+{
+  TimeSeriesSet::PAA(n);
+  this->reset();
+}
+
 int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, data_t threshold)
 {
   if (!this->isLoaded())
diff --git a/src/GroupableTimeSeriesSet.hpp b/src/GroupableTimeSeriesSet.hpp
index e7d48c8..8ebd97a 100644
--- a/src/GroupableTimeSeriesSet.hpp
+++ b/src/GroupableTimeSeriesSet.hpp
@@ -24,6 +24,13 @@ public:
    */
   ~GroupableTimeSeriesSet();
 
+  /**
+   *  @brief operations changing the data also discard the groups built from it
+   */
+  void clearData() override;
+  std::pair<data_t, data_t> normalize() override;
+  void PAA(int n) override;
+
   /**
    *  @brief groups the datset into similarity groups
    *
diff --git a/src/TimeSeriesSet.hpp b/src/TimeSeriesSet.hpp
index c0622e6..cefdef6 100644
--- a/src/TimeSeriesSet.hpp
+++ b/src/TimeSeriesSet.hpp
@@ -61,7 +61,7 @@ public:
   /**
    * @brief clears all data
    */
-  void clearData();
+  virtual void clearData();
 
   /**
    * @brief gets length of each time series in the dataset
@@ -107,14 +107,14 @@ public:
    * @return a pair (min, max) - the minimum and maximum value across
    *          the whole dataset before being normalized.
    */
-  std::pair<data_t, data_t> normalize();
+  virtual std::pair<data_t, data_t> normalize();
 
   /**
   *  @brief check if the dataset is normalized
   */
   bool isNormalized() { return normalized; }
 
-  void PAA(int n);
+  virtual void PAA(int n);
 
   /**
     *  @brief calculates the distance between a subsequence of a series in this dataset to
-- 
2.43.0


From 260b47ff9016ca5ef3e86c59cf1c988e86043c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 10/19] fix: a failed grouping request leaves the dataset half
 grouped

---
 src/GroupableTimeSeriesSet.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index b594c78..a5069a4 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -5,6 +5,7 @@
 #include <iostream>
 
 #include <fstream>
+#include <memory>
 
 using std::ofstream;
 using std::ifstream;
@@ -47,8 +48,9 @@ int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, da
   // clear old groups
   reset();
 
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-  int cntGroups = this->groupsAllLengthSet->group(distance_name, threshold);
+  std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+  int cntGroups = newGroups->group(distance_name, threshold);
+  this->groupsAllLengthSet = newGroups.release();
   this->threshold = threshold;
   return cntGroups;
 }
-- 
2.43.0


From b9acf1dec911062cee36d6e7a9a1d20508bd215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 11/19] fix: damaged or incompatible group files are accepted
 and read out of bounds

---
 src/GlobalGroupSpace.cpp       |  5 ++++-
 src/Group.cpp                  | 10 ++++++++++
 src/Group.hpp                  |  2 +-
 src/GroupableTimeSeriesSet.cpp | 14 ++++++++++++--
 src/LocalLengthGroupSpace.cpp  | 15 +++++++++++++--
 5 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index e09d229..e2acfee 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -105,13 +105,16 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
   int numberOfGroups = 0;
   string distance;
   fin >> lenFrom >> lenTo >> distance;
+  if (!fin || lenFrom != 2 || lenTo != dataset.getItemLength() + 1) {
+    throw OnexException("Group file is corrupted");
+  }
   boost::trim_right(distance);
   this->loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getItemLength() + 1, nullptr);  
   for (unsigned int i = lenFrom; i < lenTo; i++) {
     LocalLengthGroupSpace* gel = new LocalLengthGroupSpace(dataset, i);
-    numberOfGroups += gel->loadGroups(fin);
     this->localLengthGroupSpace[i] = gel;
+    numberOfGroups += gel->loadGroups(fin);
   }
   return numberOfGroups;
 }
diff --git a/src/Group.cpp b/src/Group.cpp
index 57df2fe..f167de5 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -7,6 +7,7 @@
 
 #include "TimeSeries.hpp"
 #include "distance/Distance.hpp"
+#include "Exception.hpp"
 
 using std::vector;
 using std::ofstream;
@@ -110,9 +111,18 @@ void Group::loadGroup(ifstream &fin)
   }
 
   fin >> cnt; 
+  if (!fin || cnt <= 0) {
+    throw OnexException("Group file is corrupted");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
     fin >> index >> start;
+    // A member must be inside the dataset and belong to one group only
+    if (!fin || index < 0 || index >= this->dataset.getItemCount() ||
+        start < 0 || start >= this->subTimeSeriesCount ||
+        this->memberMap[index * this->subTimeSeriesCount + start].groupIndex != -1) {
+      throw OnexException("Group file is corrupted");
+    }
     this->addMember(index, start);
   }
 }
diff --git a/src/Group.hpp b/src/Group.hpp
index d922a65..cdef2b5 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index a5069a4..af1185c 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -90,6 +90,11 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
 
 int GroupableTimeSeriesSet::loadGroups(const string& path)
 {
+  if (!this->isLoaded())
+  {
+    throw OnexException("No data to load groups for");
+  }
+
   int numberOfGroups = 0;
   ifstream fin(path);
   if (fin)
@@ -97,6 +102,10 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
     int version, grpItemCount, grpItemLength;
     data_t threshold;
     fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    if (!fin)
+    {
+      throw OnexException("Group file is corrupted");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw OnexException("Incompatible file version");
@@ -110,10 +119,11 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
       throw OnexException("Incompatible item length");
     }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroups(fin);
     reset();
     this->threshold = threshold;
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroups(fin);
+    this->groupsAllLengthSet = newGroups.release();
   }
   else
   {
diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 531b9a6..c91423f 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -139,11 +139,22 @@ int LocalLengthGroupSpace::loadGroups(ifstream &fin)
   reset();
   int numberOfGroups;
   fin >> numberOfGroups;
-  for (unsigned int i = 0; i < numberOfGroups; i++)
+  if (!fin)
+  {
+    throw OnexException("Group file is corrupted");
+  }
+  int numberOfMembers = 0;
+  for (int i = 0; i < numberOfGroups; i++)
   {
     Group* grp = new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap);
-    grp->loadGroup(fin);
     this->groups.push_back(grp);
+    grp->loadGroup(fin);
+    numberOfMembers += grp->getCount();
+  }
+  // Every time series of this length must be in a group
+  if (numberOfMembers != this->subTimeSeriesCount * this->dataset.getItemCount())
+  {
+    throw OnexException("Group file is corrupted");
   }
   return numberOfGroups;
 }
-- 
2.43.0


From 26682b4181a1de5cd4aed02659b5695ab68caeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 12/19] fix: loading files with too few columns or no data
 corrupts memory

---
 src/TimeSeriesSet.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 039a3bd..e5c3b48 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -109,8 +109,14 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
       {
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
+        if (startCol < 0 || startCol >= length)
+        {
+          f.close();
+          this->clearData();
+          throw OnexException("File does not have the starting column");
+        }
         this->data = new data_t[maxNumRow * length];
-        memset(this->data, 0, maxNumRow * length * sizeof(data_t*));
+        memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
       }
       else if (length != std::distance(tokens.begin(), tokens.end()))
@@ -158,6 +164,13 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException("Error while reading file");
   }
 
+  if (this->data == nullptr)
+  {
+    f.close();
+    this->clearData();
+    throw OnexException("File contains no data");
+  }
+
   this->itemLength = length - startCol;
   this->filePath = filePath;
 
-- 
2.43.0


From 6a0c528615834bdf3ff79e16909ed0a4402478f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 13/19] fix: read errors while counting lines are swallowed

---
 src/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index e5c3b48..9600705 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -24,6 +24,10 @@ int countNumberOfLines(std::ifstream& f)
   int lineCount = 0;
   string line;
   for (lineCount = 0; std::getline(f, line); ++lineCount);
+  if (f.bad())
+  {
+    throw OnexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return lineCount;
-- 
2.43.0


From eb2c4c92ed451ed562b94f503b9c259c3e13a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 14/19] fix: saved datasets and groups lose digits

---
 src/GroupableTimeSeriesSet.cpp | 1 +
 src/TimeSeries.cpp             | 2 +-
 src/TimeSeriesSet.cpp          | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index af1185c..133b102 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -75,6 +75,7 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
   ofstream fout(path);
   if (fout)
   {
+    fout.precision(std::numeric_limits<data_t>::max_digits10);
     // Version of the file format, the threshold and the required dataset dimensions
     fout << GROUP_FILE_VERSION << " " 
          << this->threshold << " "
diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index c7b42e8..dc00ce1 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -144,7 +144,7 @@ string TimeSeries::getIdentifierString() const
 void TimeSeries::printData(std::ostream &out) const
 {
   for (int i = 0; i < length; i++) {
-    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)
+    out << std::setprecision(std::numeric_limits<data_t>::max_digits10)
         << data[start + i] << " ";
   }
 }
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 9600705..b965185 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -189,6 +189,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw OnexException(string("Cannot open ") + filePath);
   }
+  f.precision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     for (int j = 0; j < itemLength; j++) {
       f << data[i * itemLength + j] << separator;
-- 
2.43.0


From 814d1eb1f73ab20f346db4f79714cd2dd7c71863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 15/19] fix: write errors while saving are swallowed

---
 src/GroupableTimeSeriesSet.cpp | 5 +++++
 src/TimeSeriesSet.cpp          | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 133b102..4e27b23 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -82,6 +82,11 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
     this->groupsAllLengthSet->saveGroups(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw OnexException("Error while writing file");
+    }
   }
   else
   {
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index b965185..dacc9b2 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -197,6 +197,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << std::endl;
   }
   f.close();
+  if (!f)
+  {
+    throw OnexException(string("Error while writing ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From d7e40498d7e00c3c63297595d0e4dd79aed48447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 16/19] fix: match and unload accept wrong argument counts

---
 cli/OnexCLI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index f46b7dc..2fd55ca 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -141,7 +141,7 @@ MAKE_COMMAND(SaveDataset,
 
 MAKE_COMMAND(UnloadDataset,
   {
-    if (tooFewArgs(args, 2) || tooManyArgs(args, 5))
+    if (tooFewArgs(args, 2) || tooManyArgs(args, 2))
     {
       return false;
     }
@@ -369,7 +369,7 @@ MAKE_COMMAND(PAA,
 
 MAKE_COMMAND(Match,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
+    if (tooFewArgs(args, args.size() == 5 ? 6 : 4) || tooManyArgs(args, 6))
     {
       return false;
     }
-- 
2.43.0


From 31edbea7a81eb560120e2e8a005c9d81540eec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 17/19] fix: lines allocated by readline are released with
 delete

---
 cli/OnexCLI.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index 2fd55ca..9782f7e 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -536,7 +537,7 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
@@ -573,7 +574,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 58f870048df1e54d8d13ee49ac800c2c31bb5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 18/19] fix: values outside the single precision range are
 loaded as infinity

---
 src/TimeSeriesSet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index dacc9b2..41c6e2e 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -139,7 +139,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         {
           try
           {
-            data[row * (length - startCol) + (col - startCol)] = (data_t)std::stod(*tok_iter);
+            double value = std::stod(*tok_iter);
+            if (std::abs(value) > std::numeric_limits<data_t>::max())
+            {
+              throw std::out_of_range("Value does not fit into data_t");
+            }
+            data[row * (length - startCol) + (col - startCol)] = (data_t)value;
           }
           catch (const std::invalid_argument& e)
           {
-- 
2.43.0


From 785af154be0389b80153fcee9c5116ba47160dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:20 +0000
Subject: [PATCH 19/19] fix: grouping uses an uninitialised group index when no
 distance is finite

---
 src/LocalLengthGroupSpace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index c91423f..291c82b 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -73,7 +73,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = -1;
 
       for (unsigned int i = 0; i < groups.size(); i++)
       {
@@ -85,7 +85,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
         }
       }
 
-      if (bestSoFar > threshold / 2 || this->groups.size() == 0)
+      if (bestSoFarIndex < 0 || bestSoFar > threshold / 2)
       {
         bestSoFarIndex = this->groups.size();
         int newGroupIndex = this->groups.size();
-- 
2.43.0


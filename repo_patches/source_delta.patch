From 276d91f7666993449d9cc57ba372d308952e56e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 01/15] fix: aggregate the subtree of the part

The sums of hierarchical aggregates started at the root and walked the children
of the part at every level, over a temporary that was already destroyed: wrong
sums, reads of freed memory and endless recursion.
---
 src/lpaggreg/sources/daggregationn.cpp | 21 ++++++++++---------
 src/lpaggreg/sources/haggregationn.cpp | 28 +++++++++++++++-----------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/lpaggreg/sources/daggregationn.cpp b/src/lpaggreg/sources/daggregationn.cpp
index a4bdb6a..3b35b69 100644
--- a/src/lpaggreg/sources/daggregationn.cpp
+++ b/src/lpaggreg/sources/daggregationn.cpp
@@ -10,7 +10,7 @@ void lpaggreg::DAggregateN2::compute()
 {
     sum=0;
     for (int o=part.getStart(); o<=part.getEnd();o++){
-        sum+=subSum(values->getMetaData().getRoot(), o);
+        sum+=subSum(part.getH(), o);
     }
     mean=sum/part.getSize();
 }
@@ -21,8 +21,9 @@ double lpaggreg::DAggregateN2::subSum(int h, int o)
         return (*values)(h, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, o);
     }
     return sum_t;
 }
@@ -48,7 +49,7 @@ void lpaggreg::DAggregateN3::compute()
         sum.push_back(0);
         mean.push_back(0);
         for (int o=part.getStart(); o<=part.getEnd();o++){
-            sum[i]+=subSum(values->getMetaData().getRoot(), i, o);
+            sum[i]+=subSum(part.getH(), i, o);
         }
         mean[i]=sum[i]/part.getSize();
     }
@@ -60,8 +61,9 @@ double lpaggreg::DAggregateN3::subSum(int h, int i, int o)
         return (*values)(h, i, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, o);
     }
     return sum_t;
 }
@@ -90,7 +92,7 @@ void lpaggreg::DAggregateN4::compute()
             sum[i].push_back(0);
             mean[i].push_back(0);
             for (int o=part.getStart(); o<=part.getEnd();o++){
-                sum[i][j]+=subSum(values->getMetaData().getRoot(), i, j, o);
+                sum[i][j]+=subSum(part.getH(), i, j, o);
             }
             mean[i][j]=sum[i][j]/part.getSize();
         }
@@ -103,8 +105,9 @@ double lpaggreg::DAggregateN4::subSum(int h, int i, int j, int o)
         return (*values)(h, i, j, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, o);
     }
     return sum_t;
 }
diff --git a/src/lpaggreg/sources/haggregationn.cpp b/src/lpaggreg/sources/haggregationn.cpp
index 61790b8..d92ff0f 100644
--- a/src/lpaggreg/sources/haggregationn.cpp
+++ b/src/lpaggreg/sources/haggregationn.cpp
@@ -8,7 +8,7 @@ lpaggreg::HAggregateN1::HAggregateN1(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN1::compute()
 {
     sum=0;
-    sum=subSum(values->getMetaData().getRoot());
+    sum=subSum(part.getH());
     mean=sum/part.getSize();
 }
 
@@ -18,8 +18,9 @@ double lpaggreg::HAggregateN1::subSum(int h)
         return (*values)(h);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child);
     }
     return sum_t;
 }
@@ -42,7 +43,7 @@ lpaggreg::HAggregateN2::HAggregateN2(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN2::compute()
 {
     for (int i=0; i<values->getVsize(); i++){
-        sum.push_back(subSum(values->getMetaData().getRoot(), i));
+        sum.push_back(subSum(part.getH(), i));
         mean.push_back(sum[i]/part.getSize());
     }
 }
@@ -53,8 +54,9 @@ double lpaggreg::HAggregateN2::subSum(int h, int i)
         return (*values)(h, i);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i);
     }
     return sum_t;
 }
@@ -80,7 +82,7 @@ void lpaggreg::HAggregateN3::compute()
         sum.push_back(vector<double>());
         mean.push_back(vector<double>());
         for (int j=0; j<values->getJ(); j++){
-            sum[i].push_back(subSum(values->getMetaData().getRoot(), i, j));
+            sum[i].push_back(subSum(part.getH(), i, j));
             mean[i].push_back(sum[i][j]/part.getSize());
         }
     }
@@ -92,8 +94,9 @@ double lpaggreg::HAggregateN3::subSum(int h, int i, int j)
         return (*values)(h, i, j);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j);
     }
     return sum_t;
 }
@@ -122,7 +125,7 @@ void lpaggreg::HAggregateN4::compute()
             sum[i].push_back(vector<double>());
             mean[i].push_back(vector<double>());
             for (int k=0; k<values->getK(); k++){
-                sum[i][j].push_back(subSum(values->getMetaData().getRoot(), i, j, k));
+                sum[i][j].push_back(subSum(part.getH(), i, j, k));
                 mean[i][j].push_back(sum[i][j][k]/part.getSize());
             }
         }
@@ -135,8 +138,9 @@ double lpaggreg::HAggregateN4::subSum(int h, int i, int j, int k)
         return (*values)(h, i, j, k);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, k);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, k);
     }
     return sum_t;
 }
-- 
2.43.0


From db1e6bcbd471af5830ab3b2c77bcfc25786f9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 02/15] fix: order the nodes of a hierarchy whose leaves have
 different depths

setPath stopped at the first visit of the root and added up sizes of nodes whose
own children were not complete: wrong sizes, missing children, and a node order
in which parents came before their children.
---
 src/lpaggreg/sources/hvalues.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 85c3951..80d4d38 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -20,14 +20,27 @@ void lpaggreg::HValuesMetaData::setPath()
     for (int h=leaveSize; h<hsize; h++){
         children.push_back(vector<int>());
     }
-    for (int i=0; parents[path[i]]!=-1; i++){
-        if (size.count(parents[path[i]])) {
-            size[parents[path[i]]]+=size[path[i]];
-        }else{
-            path.push_back(parents[path[i]]);
-            size[parents[path[i]]]=size[path[i]];
+    vector<int> height(hsize, 0);
+    for (int i=0; i<path.size(); i++){
+        int parent=parents[path[i]];
+        if (parent==-1){
+            continue;
+        }
+        if (!size.count(parent)) {
+            path.push_back(parent);
+            size[parent]=0;
+        }
+        for (int h=path[i]; parents[h]!=-1 && height[parents[h]]<=height[h]; h=parents[h]){
+            height[parents[h]]=height[h]+1;
+        }
+    }
+    //a node comes after all of its descendants, whatever their depth
+    stable_sort(path.begin(), path.end(), [&height](int h1, int h2){return height[h1]<height[h2];});
+    for (int h: path){
+        if (parents[h]!=-1){
+            size[parents[h]]+=size[h];
+            children[parents[h]].push_back(h);
         }
-        children[parents[path[i]]].push_back(path[i]);
     }
     root=path[path.size()-1];
 }
-- 
2.43.0


From 0ce96a528117742e5e23040074a65c72ba1acf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 03/15] fix: normalize every entry by the quality of the whole

The divisor was the entry of the whole itself, which becomes (1,1) as soon as it
is divided: entries after it stayed unnormalized.
---
 src/lpaggreg/sources/dqualities.cpp | 4 ++--
 src/lpaggreg/sources/hqualities.cpp | 4 ++--
 src/lpaggreg/sources/oqualities.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index f7f9031..8506445 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,10 +12,10 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    Quality max=*(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
-            *((*((*qualities)[h]))[i])/=(*max);
+            *((*((*qualities)[h]))[i])/=max;
         }
     }
 }
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index b0fd4f4..a144126 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -13,9 +13,9 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 
 void lpaggreg::HQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)[metaData.getRoot()];
+    Quality max=*(*qualities)[metaData.getRoot()];
     for (auto quality : *qualities){
-        *quality/=*max;
+        *quality/=max;
     }
 }
 
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index e1387c5..9f7dd97 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,9 +12,9 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, values->getOsize()-1);
+    Quality max=*(*qualities)(0, values->getOsize()-1);
     for (int i=0; i<qualities->getElements(); i++){
-        (*(*qualities)[i])/=(*max);
+        (*(*qualities)[i])/=max;
     }
 }
 
-- 
2.43.0


From ea7504246c009b4b9614b0dcbcb479bd7899d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 04/15] fix: normalize a quality table that was supplied by the
 caller

There are no values behind such a table, normalize dereferenced a null pointer.
---
 src/lpaggreg/sources/dqualities.cpp | 2 +-
 src/lpaggreg/sources/oqualities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 8506445..2b5cfd8 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    Quality max=*(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    Quality max=*(*(*qualities)[metaData.getRoot()])(0, (*qualities)[metaData.getRoot()]->getSize()-1);
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 9f7dd97..eeee66f 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    Quality max=*(*qualities)(0, values->getOsize()-1);
+    Quality max=*(*qualities)(0, qualities->getSize()-1);
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=max;
     }
-- 
2.43.0


From 590846d76833d0ede38186ea836759619e6c25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 05/15] fix: do not divide by a zero gain or loss when
 normalizing

An empty or uniform data set turned the table into NaN.
---
 src/lpaggreg/sources/dqualities.cpp | 6 ++++++
 src/lpaggreg/sources/hqualities.cpp | 6 ++++++
 src/lpaggreg/sources/oqualities.cpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 2b5cfd8..aa15f5d 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -13,6 +13,12 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 void lpaggreg::DQualities::normalize()
 {
     Quality max=*(*(*qualities)[metaData.getRoot()])(0, (*qualities)[metaData.getRoot()]->getSize()-1);
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index a144126..e4df531 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -14,6 +14,12 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 void lpaggreg::HQualities::normalize()
 {
     Quality max=*(*qualities)[metaData.getRoot()];
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (auto quality : *qualities){
         *quality/=max;
     }
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index eeee66f..1205372 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -13,6 +13,12 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 void lpaggreg::OQualities::normalize()
 {
     Quality max=*(*qualities)(0, qualities->getSize()-1);
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=max;
     }
-- 
2.43.0


From d0fd060e203e3569aec4877c82443f4da0aecb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 06/15] fix: sweep over a single parameter

With min equal to max the parameter was listed twice, and removing the duplicate
also removed its only partition.
---
 src/lpaggreg/sources/dpartitioner.cpp | 8 +++++---
 src/lpaggreg/sources/hpartitioner.cpp | 8 +++++---
 src/lpaggreg/sources/opartitioner.cpp | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 0dd319f..01aa9b5 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -23,13 +23,15 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
     partitions[min]=bestPartitionMin;
     bestPartitionMax=computeBestPartition(max);
     addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 634c695..564a353 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -24,13 +24,15 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
     partitions[min]=bestPartitionMin;
     bestPartitionMax=computeBestPartition(max);
     addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index a111e56..3ff1a0d 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -23,13 +23,15 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
     partitions[min]=bestPartitionMin;
     bestPartitionMax=computeBestPartition(max);
     addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
-- 
2.43.0


From b0c591006292a2c08a668965d74c85b2e250d4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 07/15] fix: stop a sweep at the resolution of a float

A threshold that is zero, negative or below the distance between neighbouring
floats made addBestQualities recurse for ever on one parameter.
---
 src/lpaggreg/sources/dpartitioner.cpp | 3 +++
 src/lpaggreg/sources/hpartitioner.cpp | 3 +++
 src/lpaggreg/sources/opartitioner.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 01aa9b5..c82c4e0 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -107,6 +107,9 @@ void lpaggreg::DPartitioner::addBestQualities(float threshold, shared_ptr<DParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<DPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 564a353..c2667d5 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -92,6 +92,9 @@ void lpaggreg::HPartitioner::addBestQualities(float threshold, shared_ptr<HParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<HPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index 3ff1a0d..ec15f78 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -71,6 +71,9 @@ void lpaggreg::OPartitioner::addBestQualities(float threshold, shared_ptr<OParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<OPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
-- 
2.43.0


From 1e1f72861d9180c9413b308f8779ccf42812aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 08/15] fix: keep the lists of the last sweep when a new one
 fails

A sweep that ran out of memory left its partitioner with cleared or half-filled
lists that contradict each other.
---
 src/lpaggreg/headers/dpartitioner.h   |  1 +
 src/lpaggreg/headers/hpartitioner.h   |  1 +
 src/lpaggreg/headers/opartitioner.h   |  1 +
 src/lpaggreg/sources/dpartitioner.cpp | 11 +++++++++++
 src/lpaggreg/sources/hpartitioner.cpp | 11 +++++++++++
 src/lpaggreg/sources/opartitioner.cpp | 11 +++++++++++
 6 files changed, 36 insertions(+)

diff --git a/src/lpaggreg/headers/dpartitioner.h b/src/lpaggreg/headers/dpartitioner.h
index 38a7207..cfd0212 100644
--- a/src/lpaggreg/headers/dpartitioner.h
+++ b/src/lpaggreg/headers/dpartitioner.h
@@ -30,6 +30,7 @@ namespace lpaggreg{
         list<tuple<float, int, int, int, int, lp_quality_type, lp_quality_type> > getPartitionsTuples() const;
 
     private:
+        void fillBestPartitions(float threshold, float min, float max);
         void addBestQualities(float threshold, shared_ptr<DPartition> bestPartitionMin, shared_ptr<DPartition> bestPartitionMax);
         dqualities qualities;
         map<float, shared_ptr<DPartition> > partitions;
diff --git a/src/lpaggreg/headers/hpartitioner.h b/src/lpaggreg/headers/hpartitioner.h
index 755ded0..bf736cf 100644
--- a/src/lpaggreg/headers/hpartitioner.h
+++ b/src/lpaggreg/headers/hpartitioner.h
@@ -29,6 +29,7 @@ namespace lpaggreg{
         list<tuple<float, int, int, lp_quality_type, lp_quality_type> > getPartitionsTuples() const;
 
     private:
+        void fillBestPartitions(float threshold, float min, float max);
         void addBestQualities(float threshold, shared_ptr<HPartition> bestPartitionMin, shared_ptr<HPartition> bestPartitionMax);
         hqualities qualities;
         map<float, shared_ptr<HPartition> > partitions;
diff --git a/src/lpaggreg/headers/opartitioner.h b/src/lpaggreg/headers/opartitioner.h
index 8d7cabf..765cbe7 100644
--- a/src/lpaggreg/headers/opartitioner.h
+++ b/src/lpaggreg/headers/opartitioner.h
@@ -27,6 +27,7 @@ namespace lpaggreg{
         map<float, shared_ptr<OPartition> > getPartitions() const;
         list<tuple<float, int, int, lp_quality_type, lp_quality_type> > getPartitionsTuples() const;
     private:
+        void fillBestPartitions(float threshold, float min, float max);
         void addBestQualities(float threshold, shared_ptr<OPartition> bestPartitionMin, shared_ptr<OPartition> bestPartitionMax);
         oqualities qualities;
         map<float, shared_ptr<OPartition> > partitions;
diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index c82c4e0..793e3ad 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -11,6 +11,17 @@ lpaggreg::DPartitioner::DPartitioner(lpaggreg::DQualities qualities):qualities(q
 }
 
 void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, float max)
+{
+    //computed aside: a failure leaves the current lists as they are
+    DPartitioner sweep(qualities, metaData);
+    sweep.fillBestPartitions(threshold, min, max);
+    pList.swap(sweep.pList);
+    qualityList.swap(sweep.qualityList);
+    partitions.swap(sweep.partitions);
+    partitionsTuples.swap(sweep.partitionsTuples);
+}
+
+void lpaggreg::DPartitioner::fillBestPartitions(float threshold, float min, float max)
 {
     pList.clear();
     partitions.clear();
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index c2667d5..1ca1024 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -12,6 +12,17 @@ lpaggreg::HPartitioner::HPartitioner(lpaggreg::HQualities qualities):qualities(q
 }
 
 void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, float max)
+{
+    //computed aside: a failure leaves the current lists as they are
+    HPartitioner sweep(qualities, metaData);
+    sweep.fillBestPartitions(threshold, min, max);
+    pList.swap(sweep.pList);
+    qualityList.swap(sweep.qualityList);
+    partitions.swap(sweep.partitions);
+    partitionsTuples.swap(sweep.partitionsTuples);
+}
+
+void lpaggreg::HPartitioner::fillBestPartitions(float threshold, float min, float max)
 {
     pList.clear();
     partitions.clear();
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index ec15f78..a5ce110 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -11,6 +11,17 @@ lpaggreg::OPartitioner::OPartitioner(lpaggreg::OQualities qualities):qualities(q
 }
 
 void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, float max)
+{
+    //computed aside: a failure leaves the current lists as they are
+    OPartitioner sweep(qualities);
+    sweep.fillBestPartitions(threshold, min, max);
+    pList.swap(sweep.pList);
+    qualityList.swap(sweep.qualityList);
+    partitions.swap(sweep.partitions);
+    partitionsTuples.swap(sweep.partitionsTuples);
+}
+
+void lpaggreg::OPartitioner::fillBestPartitions(float threshold, float min, float max)
 {
     pList.clear();
     partitions.clear();
-- 
2.43.0


From 15796b32293f2dffae289df309d41bbb01ead1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 09/15] fix: keep the quality table when recomputing it fails

The new table replaced the old one before it was filled, so a computation that
ran out of memory left an incomplete table behind.
---
 src/lpaggreg/sources/dqualities.cpp | 3 ++-
 src/lpaggreg/sources/hqualities.cpp | 3 ++-
 src/lpaggreg/sources/oqualities.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index aa15f5d..f130caa 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -34,7 +34,7 @@ void lpaggreg::DQualities::computeQualities()
     unsigned hsize=metaData.getHsize();
     unsigned osize=values->getOsize();
     unsigned vsize=values->getVsize();
-    qualities=dqualities(new vector<shared_ptr<UpperTriangularMatrix<shared_ptr<lpaggreg::Quality> > > >(hsize));
+    dqualities qualities=dqualities(new vector<shared_ptr<UpperTriangularMatrix<shared_ptr<lpaggreg::Quality> > > >(hsize));
     for (int h = 0; h < hsize; h++){
         (*qualities)[h]=oqualities(new UpperTriangularMatrix<shared_ptr<lpaggreg::Quality> >(osize));
     }
@@ -80,6 +80,7 @@ void lpaggreg::DQualities::computeQualities()
             }
         }
     }
+    this->qualities=qualities;
 }
 
 unsigned int lpaggreg::DQualities::size()
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index e4df531..49bcd50 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -32,7 +32,7 @@ void lpaggreg::HQualities::computeQualities()
     }
     unsigned hsize=metaData.getHsize();
     unsigned vsize=values->getVsize();
-    qualities=hqualities(new vector<shared_ptr<Quality> >(hsize));
+    hqualities qualities=hqualities(new vector<shared_ptr<Quality> >(hsize));
     for (int h = 0; h < hsize; h++){
         (*qualities)[h]=shared_ptr<Quality>(new Quality());
     }
@@ -56,6 +56,7 @@ void lpaggreg::HQualities::computeQualities()
         (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
         (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));
     }
+    this->qualities=qualities;
 }
 
 unsigned int lpaggreg::HQualities::size()
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 1205372..a6dfa45 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -33,7 +33,7 @@ void lpaggreg::OQualities::computeQualities()
     unsigned vsize=values->getVsize();
     UpperTriangularMatrix<lp_quality_type> sum(osize);
     UpperTriangularMatrix<lp_quality_type> info(osize);
-    qualities=oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(osize));
+    oqualities qualities=oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(osize));
     for (int k = 0; k < vsize; k++) {
         for (int i = osize-1; i >=0; i--) {
             sum(i,i,(*values)[k][i]);
@@ -46,6 +46,7 @@ void lpaggreg::OQualities::computeQualities()
             }
         }
     }
+    this->qualities=qualities;
 }
 
 unsigned int lpaggreg::OQualities::size()
-- 
2.43.0


From 8779a4bafebaac2f650adb43504e43c321006f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 10/15] fix: answer parameter and area queries without a list
 or with large losses

Before any sweep the queries read outside the empty list, and the optimum was an
uninitialised value when every score exceeded RAND_MAX.
---
 src/lpaggreg/sources/partitioner.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index f4bc9bb..2582451 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -1,4 +1,5 @@
 #include "partitioner.h"
+#include <limits>
 
 lpaggreg::Partitioner::Partitioner()
 {
@@ -16,7 +17,7 @@ float lpaggreg::Partitioner::getP(int strategy)
     case P_MIN:
         return 0;
     case P_MAX:
-        return pList[pList.size()-1];
+        return pList.empty() ? 0 : pList[pList.size()-1];
     case P_OPT:
         return computePOpt();
     }
@@ -26,7 +27,7 @@ float lpaggreg::Partitioner::getP(int strategy)
 float lpaggreg::Partitioner::computeAUC()
 {
     float auc=0.0;
-    for (int i=0; i<pList.size()-1; i++){
+    for (int i=0; i+1<pList.size(); i++){
         auc+=((qualityList[pList[i+1]])->getGain()-(qualityList[pList[i]])->getGain())*((qualityList[pList[i+1]])->getLoss()+(qualityList[pList[i]])->getLoss())/2;
     }
     return 1.0-auc;
@@ -39,8 +40,8 @@ map<float, shared_ptr<lpaggreg::Quality> > lpaggreg::Partitioner::getQualityList
 
 float lpaggreg::Partitioner::computePOpt()
 {
-    float popt;
-    lp_quality_type score=RAND_MAX;
+    float popt=0;
+    lp_quality_type score=numeric_limits<lp_quality_type>::infinity();
     for (float p: pList){
         lp_quality_type gain=(qualityList[p])->getGain();
         lp_quality_type loss=(qualityList[p])->getLoss();
-- 
2.43.0


From 061b2fa082d7d7ba71ed714fce08d620ca718871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 11/15] fix: search and rebuild the left side of a temporal cut

While looking for cuts the best tradeoffs of shorter intervals were overwritten
by those of the undivided intervals, and the left side of a cut was always taken
undivided: the partition returned was not the best one.
---
 src/lpaggreg/sources/dpartition.cpp   | 4 +++-
 src/lpaggreg/sources/dpartitioner.cpp | 1 -
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dpartition.cpp b/src/lpaggreg/sources/dpartition.cpp
index 4850e9f..c1308fe 100644
--- a/src/lpaggreg/sources/dpartition.cpp
+++ b/src/lpaggreg/sources/dpartition.cpp
@@ -74,9 +74,11 @@ void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
             computeSubPart(child, i, j);
         }
     }else{
-        parts.push_back(DPart(h, (metaData.getSize())[h], i, cut, (*(*qualities)[h])(i, cut)));
         if (cut<j){
+            computeSubPart(h, i, cut);
             computeSubPart(h, cut+1, j);
+        }else{
+            parts.push_back(DPart(h, (metaData.getSize())[h], i, cut, (*(*qualities)[h])(i, cut)));
         }
     }
 }
diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 793e3ad..f13fd8b 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -82,7 +82,6 @@ shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(fl
                 }
                 for (int cut_t=i; cut_t<j; cut_t++){
                     shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
-                    ((*(tradeoff[h]))(i, cut_t))->set((*((*qualities)[h]))(i, cut_t), parameter);
                      *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
                      *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                     if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
-- 
2.43.0


From ca3c5b37fba837d1c496a2f14b78dc740dd9d6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 12/15] fix: accept a hierarchy made of a single leaf

The parent of the only node, -1, was used as an index.
---
 src/lpaggreg/sources/dqualities.cpp   | 18 ++++++++++++++++++
 src/lpaggreg/sources/hpartitioner.cpp |  3 +++
 src/lpaggreg/sources/hqualities.cpp   |  4 ++++
 3 files changed, 25 insertions(+)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index f130caa..8b472f2 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -38,6 +38,24 @@ void lpaggreg::DQualities::computeQualities()
     for (int h = 0; h < hsize; h++){
         (*qualities)[h]=oqualities(new UpperTriangularMatrix<shared_ptr<lpaggreg::Quality> >(osize));
     }
+    if (hsize==1){ //a single leaf: only the intervals matter
+        for (int k=0; k < vsize; k++){
+            for (int i = 0; i < osize; i++) {
+                lp_quality_type sum=0;
+                lp_quality_type info=0;
+                for (int j = i; j < osize; j++) {
+                    sum+=(*values)[0][k][j];
+                    info+=entropyReduction((*values)[0][k][j], 0);
+                    if (j>i){
+                        (*(*qualities)[0])(i,j)->addToGain(entropyReduction(sum, info));
+                        (*(*qualities)[0])(i,j)->addToLoss(divergence(j-i+1, sum, info));
+                    }
+                }
+            }
+        }
+        this->qualities=qualities;
+        return;
+    }
     for (int k=0; k < vsize; k++){
         int i=0;
         int h;
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 1ca1024..9da57f7 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -66,6 +66,9 @@ shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(fl
         tradeoffChildren.push_back(shared_ptr<Tradeoff>(new Tradeoff()));
         aggregated.push_back(true);
     }
+    if (hsize==1){ //a single leaf: nothing to aggregate
+        return shared_ptr<HPartition>(new HPartition(aggregated, qualities, parameter, metaData));
+    }
     int i=0;
     int h;
     for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index 49bcd50..48cc131 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -36,6 +36,10 @@ void lpaggreg::HQualities::computeQualities()
     for (int h = 0; h < hsize; h++){
         (*qualities)[h]=shared_ptr<Quality>(new Quality());
     }
+    if (hsize==1){ //a single leaf: nothing to aggregate
+        this->qualities=qualities;
+        return;
+    }
     for (int k=0; k < vsize; k++){
         int i=0;
         int h;
-- 
2.43.0


From eeb871c1366cbdcea073b3c2b2cbf51f22a2f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 13/15] fix: Quality operator== compares the losses, not the
 gains twice

---
 src/lpaggreg/sources/quality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index 2187cc6..b831e8a 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -89,7 +89,7 @@ bool lpaggreg::operator==(lpaggreg::Quality &quality1, lpaggreg::Quality &qualit
     lp_quality_type precision=std::max(quality1.getGain()+quality2.getGain(),quality1.getLoss()+quality2.getLoss())/2*LP_PRECISION;
     return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||
             ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&
-            (std::abs(quality1.getGain()-quality2.getGain())<precision));
+            (std::abs(quality1.getLoss()-quality2.getLoss())<precision));
 }
 
 bool lpaggreg::operator!=(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
-- 
2.43.0


From 3f18f8388438a311e5f38a2d581a9416bb1afba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 14/15] fix: Tradeoff operators + - * / are defined in the
 namespace that declares them

---
 src/lpaggreg/sources/tradeoff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 33acb7a..b1399ea 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -84,7 +84,7 @@ void lpaggreg::Tradeoff::operator/=(lpaggreg::Tradeoff &tradeoff)
 }
 
 
-lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()+tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -94,7 +94,7 @@ lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()-tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -104,7 +104,7 @@ lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()*tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -114,7 +114,7 @@ lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()/tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
-- 
2.43.0


From 6734d2bcb8f8e3ae2939a9c73eb8ba37da73c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:57 +0000
Subject: [PATCH 15/15] fix: copies of a Tradeoff no longer share their quality

---
 src/lpaggreg/headers/tradeoff.h   |  3 ++-
 src/lpaggreg/sources/tradeoff.cpp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/headers/tradeoff.h b/src/lpaggreg/headers/tradeoff.h
index a185438..f5c73b4 100644
--- a/src/lpaggreg/headers/tradeoff.h
+++ b/src/lpaggreg/headers/tradeoff.h
@@ -18,13 +18,14 @@ namespace lpaggreg{
 
     public:
         Tradeoff();
-        //Tradeoff(Tradeoff &tradeoff);
+        Tradeoff(const Tradeoff &tradeoff);
         Tradeoff(shared_ptr<Quality> quality);
         Tradeoff(lp_quality_type value, shared_ptr<Quality> quality);
         Tradeoff(shared_ptr<Quality> quality, float p);
 
         void computePIC(float p);
 
+        Tradeoff &operator=(const Tradeoff &tradeoff);
         void operator+=(Tradeoff &tradeoff);
         void operator-=(Tradeoff &tradeoff);
         void operator*=(Tradeoff &tradeoff);
diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index b1399ea..5567a3a 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -30,10 +30,18 @@ lpaggreg::Tradeoff::Tradeoff()
     value=0;
 }
 
-/*lpaggreg::Tradeoff::Tradeoff(Tradeoff &tradeoff):value(tradeoff.getValue()), quality(tradeoff.getQuality())
+lpaggreg::Tradeoff::Tradeoff(const Tradeoff &tradeoff):quality(new Quality(*(tradeoff.quality))), value(tradeoff.value)
 {
 
-}*/
+}
+
+
+lpaggreg::Tradeoff &lpaggreg::Tradeoff::operator=(const Tradeoff &tradeoff)
+{
+    *quality=*(tradeoff.quality);
+    value=tradeoff.value;
+    return *this;
+}
 
 
 lpaggreg::Tradeoff::Tradeoff(lp_quality_type value, shared_ptr<lpaggreg::Quality> quality):value(value)
-- 
2.43.0


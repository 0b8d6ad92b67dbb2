From 3f5bddab5daa2b935d67d4742d753878c5f04310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 01/18] fix: compare the loss, not twice the gain, in Quality
 equality

---
 src/lpaggreg/sources/quality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index 2187cc6..b831e8a 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -89,7 +89,7 @@ bool lpaggreg::operator==(lpaggreg::Quality &quality1, lpaggreg::Quality &qualit
     lp_quality_type precision=std::max(quality1.getGain()+quality2.getGain(),quality1.getLoss()+quality2.getLoss())/2*LP_PRECISION;
     return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||
             ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&
-            (std::abs(quality1.getGain()-quality2.getGain())<precision));
+            (std::abs(quality1.getLoss()-quality2.getLoss())<precision));
 }
 
 bool lpaggreg::operator!=(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
-- 
2.43.0


From 05f8936d2d3bcc462e9c844fcc1175f8237d157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 02/18] fix: define the Tradeoff arithmetic operators in the
 namespace that declares them

---
 src/lpaggreg/sources/tradeoff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 33acb7a..b1399ea 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -84,7 +84,7 @@ void lpaggreg::Tradeoff::operator/=(lpaggreg::Tradeoff &tradeoff)
 }
 
 
-lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()+tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -94,7 +94,7 @@ lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()-tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -104,7 +104,7 @@ lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()*tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -114,7 +114,7 @@ lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()/tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
-- 
2.43.0


From b349081dd380218477940b7bde8f2e9e7d0a8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 03/18] fix: make Tradeoff equality consistent with its
 ordering, so that a<b iff b>a

---
 src/lpaggreg/sources/tradeoff.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index b1399ea..a8a53c0 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -126,14 +126,16 @@ lpaggreg::Tradeoff lpaggreg::operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::
 
 bool lpaggreg::operator==(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
-    return tradeoff1.getValue()==tradeoff2.getValue();
+    return tradeoff1.getValue()==tradeoff2.getValue()&&
+            tradeoff1.getQuality()->getGain()==tradeoff2.getQuality()->getGain()&&
+            tradeoff1.getQuality()->getLoss()==tradeoff2.getQuality()->getLoss();
 
 }
 
 
 bool lpaggreg::operator!=(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
-    return !(tradeoff1.getValue()==tradeoff2.getValue());
+    return !(tradeoff1==tradeoff2);
 }
 
 
-- 
2.43.0


From 502f39f17ef90b2ff15e044f83e898151cb2be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 04/18] fix: copy the quality when a Tradeoff is copied,
 instead of sharing it

---
 src/lpaggreg/headers/tradeoff.h   |  4 +++-
 src/lpaggreg/sources/tradeoff.cpp | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/headers/tradeoff.h b/src/lpaggreg/headers/tradeoff.h
index a185438..967d976 100644
--- a/src/lpaggreg/headers/tradeoff.h
+++ b/src/lpaggreg/headers/tradeoff.h
@@ -18,11 +18,13 @@ namespace lpaggreg{
 
     public:
         Tradeoff();
-        //Tradeoff(Tradeoff &tradeoff);
+        Tradeoff(const Tradeoff &tradeoff);
         Tradeoff(shared_ptr<Quality> quality);
         Tradeoff(lp_quality_type value, shared_ptr<Quality> quality);
         Tradeoff(shared_ptr<Quality> quality, float p);
 
+        Tradeoff &operator=(const Tradeoff &tradeoff);
+
         void computePIC(float p);
 
         void operator+=(Tradeoff &tradeoff);
diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index a8a53c0..66486cf 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -30,10 +30,18 @@ lpaggreg::Tradeoff::Tradeoff()
     value=0;
 }
 
-/*lpaggreg::Tradeoff::Tradeoff(Tradeoff &tradeoff):value(tradeoff.getValue()), quality(tradeoff.getQuality())
+lpaggreg::Tradeoff::Tradeoff(const lpaggreg::Tradeoff &tradeoff):value(tradeoff.value)
 {
+    this->quality=shared_ptr<Quality>(new Quality(tradeoff.quality->getGain(), tradeoff.quality->getLoss()));
+}
+
 
-}*/
+lpaggreg::Tradeoff &lpaggreg::Tradeoff::operator=(const lpaggreg::Tradeoff &tradeoff)
+{
+    this->quality=shared_ptr<Quality>(new Quality(tradeoff.quality->getGain(), tradeoff.quality->getLoss()));
+    value=tradeoff.value;
+    return *this;
+}
 
 
 lpaggreg::Tradeoff::Tradeoff(lp_quality_type value, shared_ptr<lpaggreg::Quality> quality):value(value)
-- 
2.43.0


From 04d670042e0255eaf3d75953eb9d7efc03dff34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 05/18] fix: visit a node only after all its children, so that
 unbalanced hierarchies work

---
 src/lpaggreg/sources/hvalues.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 85c3951..2052bf6 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -20,13 +20,22 @@ void lpaggreg::HValuesMetaData::setPath()
     for (int h=leaveSize; h<hsize; h++){
         children.push_back(vector<int>());
     }
+    vector<int> pending(hsize, 0);
+    for (int h=0; h<hsize; h++){
+        if (parents[h]!=-1){
+            pending[parents[h]]++;
+        }
+    }
     for (int i=0; parents[path[i]]!=-1; i++){
         if (size.count(parents[path[i]])) {
             size[parents[path[i]]]+=size[path[i]];
         }else{
-            path.push_back(parents[path[i]]);
             size[parents[path[i]]]=size[path[i]];
         }
+        pending[parents[path[i]]]--;
+        if (pending[parents[path[i]]]==0){
+            path.push_back(parents[path[i]]);
+        }
         children[parents[path[i]]].push_back(path[i]);
     }
     root=path[path.size()-1];
-- 
2.43.0


From 90e248772931771a8fb0ba5bf764b666218122c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 06/18] fix: let setPath start afresh when it is called again

---
 src/lpaggreg/sources/hvalues.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 2052bf6..98b2c06 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -12,6 +12,9 @@ lpaggreg::HValuesProxy lpaggreg::HValues::operator[](unsigned int h)
 
 void lpaggreg::HValuesMetaData::setPath()
 {
+    path.clear();
+    children.clear();
+    size.clear();
     for (int h=0; h<leaveSize; h++){
         path.push_back(h);
         children.push_back(vector<int>());
-- 
2.43.0


From 8b26c20f6d617258cfcc90b8059a4551547b4774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 07/18] fix: normalize ready-made qualities without
 dereferencing the absent values

---
 src/lpaggreg/sources/dqualities.cpp | 2 +-
 src/lpaggreg/sources/oqualities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index f7f9031..abb50a5 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, (*qualities)[metaData.getRoot()]->getSize()-1);
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=(*max);
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index e1387c5..5ef5513 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, values->getOsize()-1);
+    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=(*max);
     }
-- 
2.43.0


From b31327f7935c4f51e3729535a4b82f272982c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 08/18] fix: normalize by the original total even when the root
 is not stored last

---
 src/lpaggreg/sources/dqualities.cpp | 4 ++--
 src/lpaggreg/sources/hqualities.cpp | 4 ++--
 src/lpaggreg/sources/oqualities.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index abb50a5..a66bfe8 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,10 +12,10 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, (*qualities)[metaData.getRoot()]->getSize()-1);
+    Quality max(*(*(*qualities)[metaData.getRoot()])(0, (*qualities)[metaData.getRoot()]->getSize()-1));
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
-            *((*((*qualities)[h]))[i])/=(*max);
+            *((*((*qualities)[h]))[i])/=max;
         }
     }
 }
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index b0fd4f4..be54e84 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -13,9 +13,9 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 
 void lpaggreg::HQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)[metaData.getRoot()];
+    Quality max(*(*qualities)[metaData.getRoot()]);
     for (auto quality : *qualities){
-        *quality/=*max;
+        *quality/=max;
     }
 }
 
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 5ef5513..630ad6a 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,9 +12,9 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
+    Quality max(*(*qualities)(0, qualities->getSize()-1));
     for (int i=0; i<qualities->getElements(); i++){
-        (*(*qualities)[i])/=(*max);
+        (*(*qualities)[i])/=max;
     }
 }
 
-- 
2.43.0


From af2afe3b0e0c931a5236a71969fc41faa94930af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 09/18] fix: do not divide by a zero total when normalizing

---
 src/lpaggreg/sources/dqualities.cpp | 6 ++++++
 src/lpaggreg/sources/hqualities.cpp | 6 ++++++
 src/lpaggreg/sources/oqualities.cpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index a66bfe8..e24b1dd 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -13,6 +13,12 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 void lpaggreg::DQualities::normalize()
 {
     Quality max(*(*(*qualities)[metaData.getRoot()])(0, (*qualities)[metaData.getRoot()]->getSize()-1));
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index be54e84..393e2b1 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -14,6 +14,12 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 void lpaggreg::HQualities::normalize()
 {
     Quality max(*(*qualities)[metaData.getRoot()]);
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (auto quality : *qualities){
         *quality/=max;
     }
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 630ad6a..70503a4 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -13,6 +13,12 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 void lpaggreg::OQualities::normalize()
 {
     Quality max(*(*qualities)(0, qualities->getSize()-1));
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=max;
     }
-- 
2.43.0


From f10cb0ddb90001c10f75d488e8d34f434f8446f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 10/18] fix: support a hierarchy that consists of a single node

---
 src/lpaggreg/sources/dqualities.cpp   | 18 +++++++++++++-----
 src/lpaggreg/sources/hpartitioner.cpp |  3 +++
 src/lpaggreg/sources/hqualities.cpp   |  3 +++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index e24b1dd..7205f9a 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -47,22 +47,30 @@ void lpaggreg::DQualities::computeQualities()
             sum.push_back(UpperTriangularMatrix<lp_quality_type>(osize));
             info.push_back(UpperTriangularMatrix<lp_quality_type>(osize));
         }
-        for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
+        for (; i < metaData.getLeaveSize(); i++){
+            h = (metaData.getPath())[i];
             for (int i = osize-1; i >=0; i--) {
                 (sum[h])(i,i,(*values)[h][k][i]);
                 (info[h])(i,i,entropyReduction((*values)[h][k][i], 0));
-                (sum[(metaData.getParents())[h]])(i,i,(sum[(metaData.getParents())[h]])(i,i)+(sum[h])(i,i));
-                (info[(metaData.getParents())[h]])(i,i,(info[(metaData.getParents())[h]])(i,i)+(info[h])(i,i));
+                if (h!=metaData.getRoot()){
+                    (sum[(metaData.getParents())[h]])(i,i,(sum[(metaData.getParents())[h]])(i,i)+(sum[h])(i,i));
+                    (info[(metaData.getParents())[h]])(i,i,(info[(metaData.getParents())[h]])(i,i)+(info[h])(i,i));
+                }
                 for (int j = i+1; j < osize; j++) {
                     (sum[h])(i,j,(sum[h])(i+1,j)+(sum[h])(i,i));
                     (info[h])(i,j,(info[h])(i+1,j)+(info[h])(i,i));
                     (*(*qualities)[h])(i,j)->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
                     (*(*qualities)[h])(i,j)->addToLoss(divergence(j-i+1, (sum[h])(i,j), (info[h])(i,j)));
-                    (sum[(metaData.getParents())[h]])(i,j,(sum[(metaData.getParents())[h]])(i,j)+(sum[h])(i,j));
-                    (info[(metaData.getParents())[h]])(i,j,(info[(metaData.getParents())[h]])(i,j)+(info[h])(i,j));
+                    if (h!=metaData.getRoot()){
+                        (sum[(metaData.getParents())[h]])(i,j,(sum[(metaData.getParents())[h]])(i,j)+(sum[h])(i,j));
+                        (info[(metaData.getParents())[h]])(i,j,(info[(metaData.getParents())[h]])(i,j)+(info[h])(i,j));
+                    }
                 }
             }
         }
+        if (hsize==1){
+            continue;
+        }
         for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){
             for (int i = osize-1; i >=0; i--) {
                 for (int j = i; j < osize; j++) {
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 634c695..c94385d 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -53,6 +53,9 @@ shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(fl
         tradeoffChildren.push_back(shared_ptr<Tradeoff>(new Tradeoff()));
         aggregated.push_back(true);
     }
+    if (hsize==1){
+        return shared_ptr<HPartition>(new HPartition(aggregated, qualities, parameter, metaData));
+    }
     int i=0;
     int h;
     for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index 393e2b1..338b8fd 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -36,6 +36,9 @@ void lpaggreg::HQualities::computeQualities()
     for (int h = 0; h < hsize; h++){
         (*qualities)[h]=shared_ptr<Quality>(new Quality());
     }
+    if (hsize==1){
+        return;
+    }
     for (int k=0; k < vsize; k++){
         int i=0;
         int h;
-- 
2.43.0


From ae24ebbf8243fd2995a18680e5e517f86b4c4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 11/18] fix: aggregate the leaves below the part's own node,
 without a dangling children list

---
 src/lpaggreg/sources/daggregationn.cpp | 21 ++++++++++---------
 src/lpaggreg/sources/haggregationn.cpp | 28 +++++++++++++++-----------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/lpaggreg/sources/daggregationn.cpp b/src/lpaggreg/sources/daggregationn.cpp
index a4bdb6a..3b35b69 100644
--- a/src/lpaggreg/sources/daggregationn.cpp
+++ b/src/lpaggreg/sources/daggregationn.cpp
@@ -10,7 +10,7 @@ void lpaggreg::DAggregateN2::compute()
 {
     sum=0;
     for (int o=part.getStart(); o<=part.getEnd();o++){
-        sum+=subSum(values->getMetaData().getRoot(), o);
+        sum+=subSum(part.getH(), o);
     }
     mean=sum/part.getSize();
 }
@@ -21,8 +21,9 @@ double lpaggreg::DAggregateN2::subSum(int h, int o)
         return (*values)(h, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, o);
     }
     return sum_t;
 }
@@ -48,7 +49,7 @@ void lpaggreg::DAggregateN3::compute()
         sum.push_back(0);
         mean.push_back(0);
         for (int o=part.getStart(); o<=part.getEnd();o++){
-            sum[i]+=subSum(values->getMetaData().getRoot(), i, o);
+            sum[i]+=subSum(part.getH(), i, o);
         }
         mean[i]=sum[i]/part.getSize();
     }
@@ -60,8 +61,9 @@ double lpaggreg::DAggregateN3::subSum(int h, int i, int o)
         return (*values)(h, i, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, o);
     }
     return sum_t;
 }
@@ -90,7 +92,7 @@ void lpaggreg::DAggregateN4::compute()
             sum[i].push_back(0);
             mean[i].push_back(0);
             for (int o=part.getStart(); o<=part.getEnd();o++){
-                sum[i][j]+=subSum(values->getMetaData().getRoot(), i, j, o);
+                sum[i][j]+=subSum(part.getH(), i, j, o);
             }
             mean[i][j]=sum[i][j]/part.getSize();
         }
@@ -103,8 +105,9 @@ double lpaggreg::DAggregateN4::subSum(int h, int i, int j, int o)
         return (*values)(h, i, j, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, o);
     }
     return sum_t;
 }
diff --git a/src/lpaggreg/sources/haggregationn.cpp b/src/lpaggreg/sources/haggregationn.cpp
index 61790b8..d92ff0f 100644
--- a/src/lpaggreg/sources/haggregationn.cpp
+++ b/src/lpaggreg/sources/haggregationn.cpp
@@ -8,7 +8,7 @@ lpaggreg::HAggregateN1::HAggregateN1(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN1::compute()
 {
     sum=0;
-    sum=subSum(values->getMetaData().getRoot());
+    sum=subSum(part.getH());
     mean=sum/part.getSize();
 }
 
@@ -18,8 +18,9 @@ double lpaggreg::HAggregateN1::subSum(int h)
         return (*values)(h);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child);
     }
     return sum_t;
 }
@@ -42,7 +43,7 @@ lpaggreg::HAggregateN2::HAggregateN2(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN2::compute()
 {
     for (int i=0; i<values->getVsize(); i++){
-        sum.push_back(subSum(values->getMetaData().getRoot(), i));
+        sum.push_back(subSum(part.getH(), i));
         mean.push_back(sum[i]/part.getSize());
     }
 }
@@ -53,8 +54,9 @@ double lpaggreg::HAggregateN2::subSum(int h, int i)
         return (*values)(h, i);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i);
     }
     return sum_t;
 }
@@ -80,7 +82,7 @@ void lpaggreg::HAggregateN3::compute()
         sum.push_back(vector<double>());
         mean.push_back(vector<double>());
         for (int j=0; j<values->getJ(); j++){
-            sum[i].push_back(subSum(values->getMetaData().getRoot(), i, j));
+            sum[i].push_back(subSum(part.getH(), i, j));
             mean[i].push_back(sum[i][j]/part.getSize());
         }
     }
@@ -92,8 +94,9 @@ double lpaggreg::HAggregateN3::subSum(int h, int i, int j)
         return (*values)(h, i, j);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j);
     }
     return sum_t;
 }
@@ -122,7 +125,7 @@ void lpaggreg::HAggregateN4::compute()
             sum[i].push_back(vector<double>());
             mean[i].push_back(vector<double>());
             for (int k=0; k<values->getK(); k++){
-                sum[i][j].push_back(subSum(values->getMetaData().getRoot(), i, j, k));
+                sum[i][j].push_back(subSum(part.getH(), i, j, k));
                 mean[i][j].push_back(sum[i][j][k]/part.getSize());
             }
         }
@@ -135,8 +138,9 @@ double lpaggreg::HAggregateN4::subSum(int h, int i, int j, int k)
         return (*values)(h, i, j, k);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, k);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, k);
     }
     return sum_t;
 }
-- 
2.43.0


From 759c417a439ddbd0bda812e90b38c99a7a101d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 12/18] fix: keep the partition when both ends of the range
 coincide, and keep the iterator valid

---
 src/lpaggreg/sources/dpartitioner.cpp | 6 ++++--
 src/lpaggreg/sources/hpartitioner.cpp | 6 ++++--
 src/lpaggreg/sources/opartitioner.cpp | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 0dd319f..f62abc9 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -28,8 +28,10 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
-            partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            if (*it!=*it2){
+                partitions.erase(partitions.find(*it));
+            }
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index c94385d..9edd9e6 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -29,8 +29,10 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
-            partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            if (*it!=*it2){
+                partitions.erase(partitions.find(*it));
+            }
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index a111e56..ed7bc67 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -28,8 +28,10 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
-            partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            if (*it!=*it2){
+                partitions.erase(partitions.find(*it));
+            }
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
-- 
2.43.0


From 51d94e265dc51c7805e5212c97c655ddf3c5b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 13/18] fix: stop refining when no parameter lies strictly
 between the ends

---
 src/lpaggreg/sources/dpartitioner.cpp | 3 +++
 src/lpaggreg/sources/hpartitioner.cpp | 3 +++
 src/lpaggreg/sources/opartitioner.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index f62abc9..0b4a98d 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -107,6 +107,9 @@ void lpaggreg::DPartitioner::addBestQualities(float threshold, shared_ptr<DParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<DPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 9edd9e6..282138d 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -95,6 +95,9 @@ void lpaggreg::HPartitioner::addBestQualities(float threshold, shared_ptr<HParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<HPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index ed7bc67..3c14799 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -71,6 +71,9 @@ void lpaggreg::OPartitioner::addBestQualities(float threshold, shared_ptr<OParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<OPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
-- 
2.43.0


From eb02190c49290f8022e9e5fb18fb6b1580d4910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 14/18] fix: answer P_MIN from the sweep, and queries before
 any sweep

---
 src/lpaggreg/sources/partitioner.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index f4bc9bb..005097f 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -12,9 +12,12 @@ vector<float> lpaggreg::Partitioner::getPList() const
 
 float lpaggreg::Partitioner::getP(int strategy)
 {
+    if (pList.empty()){
+        return 0;
+    }
     switch(strategy){
     case P_MIN:
-        return 0;
+        return pList[0];
     case P_MAX:
         return pList[pList.size()-1];
     case P_OPT:
@@ -26,7 +29,7 @@ float lpaggreg::Partitioner::getP(int strategy)
 float lpaggreg::Partitioner::computeAUC()
 {
     float auc=0.0;
-    for (int i=0; i<pList.size()-1; i++){
+    for (int i=0; i+1<pList.size(); i++){
         auc+=((qualityList[pList[i+1]])->getGain()-(qualityList[pList[i]])->getGain())*((qualityList[pList[i+1]])->getLoss()+(qualityList[pList[i]])->getLoss())/2;
     }
     return 1.0-auc;
-- 
2.43.0


From 13d9e8e7c404ffc4783137023d06f30d71ff6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 15/18] fix: find the optimal parameter whatever the magnitude
 of the qualities

---
 src/lpaggreg/sources/partitioner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index 005097f..0445fa6 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -1,4 +1,5 @@
 #include "partitioner.h"
+#include <limits>
 
 lpaggreg::Partitioner::Partitioner()
 {
@@ -42,8 +43,8 @@ map<float, shared_ptr<lpaggreg::Quality> > lpaggreg::Partitioner::getQualityList
 
 float lpaggreg::Partitioner::computePOpt()
 {
-    float popt;
-    lp_quality_type score=RAND_MAX;
+    float popt=pList[0];
+    lp_quality_type score=std::numeric_limits<lp_quality_type>::infinity();
     for (float p: pList){
         lp_quality_type gain=(qualityList[p])->getGain();
         lp_quality_type loss=(qualityList[p])->getLoss();
-- 
2.43.0


From f247d9482b3c8711c096ddfef6ca8e8155e11d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 16/18] fix: make the PARTITION_COMPARE_QUALITY configuration
 compile and compare values

---
 src/lpaggreg/sources/dpartition.cpp | 7 ++++++-
 src/lpaggreg/sources/hpartition.cpp | 2 +-
 src/lpaggreg/sources/opartition.cpp | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/sources/dpartition.cpp b/src/lpaggreg/sources/dpartition.cpp
index 4850e9f..cdf5a48 100644
--- a/src/lpaggreg/sources/dpartition.cpp
+++ b/src/lpaggreg/sources/dpartition.cpp
@@ -110,6 +110,8 @@ vector<lpaggreg::DPart> lpaggreg::DPartition::getParts() const
     return parts;
 }
 
+#ifndef PARTITION_COMPARE_QUALITY
+
 bool lpaggreg::operator==(lpaggreg::DPartition &dpartition1, lpaggreg::DPartition &dpartition2)
 {
     if (dpartition1.getParts().size()!=dpartition2.getParts().size()){
@@ -133,10 +135,13 @@ bool lpaggreg::operator==(lpaggreg::DPartition &dpartition1, lpaggreg::DPartitio
     }
 }
 
+#endif
+
 #ifdef PARTITION_COMPARE_QUALITY
+
 bool lpaggreg::operator==(lpaggreg::DPartition &dpartition1, lpaggreg::DPartition &dpartition2)
 {
-    return (dpartition1.getQuality()==dpartition2.getQuality());
+    return (*(dpartition1.getQuality())==*(dpartition2.getQuality()));
 }
 #endif
 
diff --git a/src/lpaggreg/sources/hpartition.cpp b/src/lpaggreg/sources/hpartition.cpp
index 22cabd4..7e23a07 100644
--- a/src/lpaggreg/sources/hpartition.cpp
+++ b/src/lpaggreg/sources/hpartition.cpp
@@ -52,7 +52,7 @@ bool lpaggreg::operator==(lpaggreg::HPartition &hpartition1, lpaggreg::HPartitio
 
 bool lpaggreg::operator==(lpaggreg::HPartition &hpartition1, lpaggreg::HPartition &hpartition2)
 {
-    return (hpartition1.getQuality()==hpartition2.getQuality());
+    return (*(hpartition1.getQuality())==*(hpartition2.getQuality()));
 }
 #endif
 
diff --git a/src/lpaggreg/sources/opartition.cpp b/src/lpaggreg/sources/opartition.cpp
index 494a0e7..c35a858 100644
--- a/src/lpaggreg/sources/opartition.cpp
+++ b/src/lpaggreg/sources/opartition.cpp
@@ -100,7 +100,7 @@ bool lpaggreg::operator==(lpaggreg::OPartition &opartition1, lpaggreg::OPartitio
 
 bool lpaggreg::operator==(lpaggreg::OPartition &opartition1, lpaggreg::OPartition &opartition2)
 {
-    return (opartition1.getQuality()==opartition2.getQuality());
+    return (*(opartition1.getQuality())==*(opartition2.getQuality()));
 }
 #endif
 
-- 
2.43.0


From 96c853e02fbeb9835f2efd4cd12f8a2fb2a8ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 17/18] fix: evaluate logarithms in the precision of the
 quality type

---
 src/lpaggreg/headers/complexity.h   | 2 +-
 src/lpaggreg/sources/complexity.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/headers/complexity.h b/src/lpaggreg/headers/complexity.h
index b7c1480..5c859cf 100644
--- a/src/lpaggreg/headers/complexity.h
+++ b/src/lpaggreg/headers/complexity.h
@@ -44,6 +44,6 @@ lp_quality_type  entropy(lp_quality_type  val);
 lp_quality_type  entropyReduction(lp_quality_type  val, lp_quality_type  ent);
 lp_quality_type  divergence(int size, lp_quality_type  value, lp_quality_type  ent);
 
-static const lp_quality_type  ln = log(2.0);
+static const lp_quality_type  ln = std::log(2.0L);
 
 #endif /* COMPLEXITY_H_ */
diff --git a/src/lpaggreg/sources/complexity.cpp b/src/lpaggreg/sources/complexity.cpp
index 57a458d..5a86158 100644
--- a/src/lpaggreg/sources/complexity.cpp
+++ b/src/lpaggreg/sources/complexity.cpp
@@ -36,7 +36,7 @@
 #include "complexity.h"
 
 lp_quality_type  entropy(lp_quality_type  val) {
-	return val * log(val) / ln;
+	return val * std::log(val) / ln;
 }
 
 lp_quality_type  entropyReduction(lp_quality_type  val, lp_quality_type  ent) {
@@ -47,5 +47,5 @@ lp_quality_type  entropyReduction(lp_quality_type  val, lp_quality_type  ent) {
 }
 
 lp_quality_type  divergence(int size, lp_quality_type  value, lp_quality_type  ent) {
-	return (value) * log(size) / ln - entropyReduction(value, ent);
+	return (value) * std::log((lp_quality_type) size) / ln - entropyReduction(value, ent);
 }
-- 
2.43.0


From 0bc145c6cdf2fb7d3880219d944fad16ae252fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 18/18] fix: let both halves of a temporal cut be split
 further, so that the best partition is found

---
 src/lpaggreg/sources/dpartition.cpp   | 8 ++++----
 src/lpaggreg/sources/dpartitioner.cpp | 1 -
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lpaggreg/sources/dpartition.cpp b/src/lpaggreg/sources/dpartition.cpp
index cdf5a48..3518b57 100644
--- a/src/lpaggreg/sources/dpartition.cpp
+++ b/src/lpaggreg/sources/dpartition.cpp
@@ -73,11 +73,11 @@ void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
             int child=metaData.getChildren().operator [](h).operator [](k);
             computeSubPart(child, i, j);
         }
+    }else if (cut<j){
+        computeSubPart(h, i, cut);
+        computeSubPart(h, cut+1, j);
     }else{
-        parts.push_back(DPart(h, (metaData.getSize())[h], i, cut, (*(*qualities)[h])(i, cut)));
-        if (cut<j){
-            computeSubPart(h, cut+1, j);
-        }
+        parts.push_back(DPart(h, (metaData.getSize())[h], i, j, (*(*qualities)[h])(i, j)));
     }
 }
 
diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 0b4a98d..43ad5c7 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -71,7 +71,6 @@ shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(fl
                 }
                 for (int cut_t=i; cut_t<j; cut_t++){
                     shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
-                    ((*(tradeoff[h]))(i, cut_t))->set((*((*qualities)[h]))(i, cut_t), parameter);
                      *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
                      *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                     if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
-- 
2.43.0


From 063bb77e08044d1e7a3eab3a197f3a7aee761743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 01/41] fix: train the unlabelled entries themselves in
 semi-supervised training

The second pass of ClusWisard::train(images, dictionary) trained the first entries of the list
instead of the unlabelled ones, and wrote outside the index list when a key was not an entry.
---
 include/wisardpkg.hpp               | 13 +++----------
 src/models/cluswisard/cluswisard.cc | 13 +++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5446a20..1e8de3d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19318,18 +19318,11 @@ public:
     checkConfidence(numberOfRAMS);
     checkInputLabels(images.size(), labels);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -19341,7 +19334,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b255473..6cf453b 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -93,18 +93,11 @@ public:
     checkConfidence(numberOfRAMS);
     checkInputLabels(images.size(), labels);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -116,7 +109,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-- 
2.43.0


From f16cf1b956014c11eb0b97342a51b31314cc8c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 02/41] fix: keep the unsupervised cluster between trainings
 and give it the base

It was built anew on every call without supervised classes, never built (and used uninitialised)
with them, and always had base 2. An empty list of entries was read out of bounds.
---
 include/wisardpkg.hpp               | 5 +++--
 src/models/cluswisard/cluswisard.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1e8de3d..af925ed 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19341,8 +19341,9 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(images.empty()) return;
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 6cf453b..3526127 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -116,8 +116,9 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(images.empty()) return;
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
-- 
2.43.0


From aa80f7dd2ed5d352431c4691782ecccf9dc10799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 03/41] fix: cut the discriminator number off the label at the
 last separator

A label containing '::' came back truncated from ClusWisard, and semi-supervised training then
used a cluster of the truncated label that was never built.
---
 include/wisardpkg.hpp               | 4 ++--
 src/models/cluswisard/cluswisard.cc | 4 ++--
 src/wrappers/cluswisardwrapper.cc   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index af925ed..912c296 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19358,7 +19358,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19441,7 +19441,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 3526127..81d60e5 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -133,7 +133,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -216,7 +216,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 92c85ca..310e78d 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -46,7 +46,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      std::string aClass = label.substr(0,label.find("::"));
+      std::string aClass = label.substr(0,label.rfind("::"));
 
       if(returnConfidence || returnActivationDegree || returnClassesDegrees){
         labels[i] = py::dict(py::arg("class")=aClass);
@@ -85,7 +85,7 @@ protected:
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;
     if(total == 0) total=1;
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i){
-      std::string aClass = i->first.substr(0,i->first.find("::"));
+      std::string aClass = i->first.substr(0,i->first.rfind("::"));
       output[index] = py::dict(py::arg("class")=aClass, py::arg("degree")=(i->second/total));
       index++;
     }
-- 
2.43.0


From 90775c1ff9ae632c1158ab0cc8fb40ab0e51be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 04/41] fix: asking ClusWisard for the mental image of an
 unknown label creates no cluster

The query inserted an uninitialised cluster under that label.
---
 include/wisardpkg.hpp               | 4 +++-
 src/models/cluswisard/cluswisard.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 912c296..77ec8ae 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19383,7 +19383,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto cluster = clusters.find(label);
+    if(cluster == clusters.end()) return std::vector<std::vector<int>>();
+    return cluster->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 81d60e5..233ba92 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -158,7 +158,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto cluster = clusters.find(label);
+    if(cluster == clusters.end()) return std::vector<std::vector<int>>();
+    return cluster->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
-- 
2.43.0


From 890b8578a36211c4ee7c5a7e889ef9e994db7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 05/41] fix: a cluster owns its discriminators

It kept raw pointers that were shared by every copy of a model and never freed, so training a copy
of a ClusWisard changed the original.
---
 include/wisardpkg.hpp            | 33 ++++++++++++++++----------------
 src/models/cluswisard/cluster.cc | 33 ++++++++++++++++----------------
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 77ec8ae..94582cf 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19082,7 +19082,8 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      int index = discriminators.size();
+      discriminators[index] = Discriminator(d);
     }
   }
 
@@ -19121,16 +19122,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -19146,8 +19147,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -19157,7 +19158,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -19168,14 +19169,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator((int)addressSize, (int)entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -19184,20 +19185,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -19205,7 +19206,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -19218,7 +19219,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 8f059ae..a2491c6 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -44,7 +44,8 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      int index = discriminators.size();
+      discriminators[index] = Discriminator(d);
     }
   }
 
@@ -83,16 +84,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -108,8 +109,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -119,7 +120,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -130,14 +131,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator((int)addressSize, (int)entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -146,20 +147,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -167,7 +168,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -180,7 +181,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
-- 
2.43.0


From 7537c3c0691df02a93d9144ce6cc34d3ee24a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 06/41] fix: decode the empty Base64 text and refuse texts of a
 wrong length

Both were read outside of the string.
---
 include/wisardpkg.hpp | 4 ++++
 src/common/utils.cc   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 94582cf..4150a9e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17440,6 +17440,10 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return std::string();
+    if(sizeIn%4 != 0){
+      throw Exception("The length of a base64 text must be a multiple of 4!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
diff --git a/src/common/utils.cc b/src/common/utils.cc
index d87aa8f..f8f10ac 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -110,6 +110,10 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return std::string();
+    if(sizeIn%4 != 0){
+      throw Exception("The length of a base64 text must be a multiple of 4!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
-- 
2.43.0


From 90991ecdb01d1e408d40c04c7cf929958a7095f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 07/41] fix: restore untrained discriminators and those of
 jsonConfig()

A text without count and data, as jsonConfig() writes it, or with empty data, as json() writes it
before any training, was refused with an exception; data with too few RAMs was read from its start
again.
---
 include/wisardpkg.hpp              | 33 ++++++++++++++++++++++--------
 src/common/utils.cc                |  4 ++++
 src/models/wisard/discriminator.cc | 26 ++++++++++++++++-------
 src/models/wisard/ramdatahandle.cc |  3 +--
 4 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4150a9e..60626c7 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17387,6 +17387,10 @@ T convertToValue(const std::string &data)
   return out;
 }
 
+inline bool hasSuffix(const std::string& text, const std::string& suffix){
+  return text.size() >= suffix.size() && text.compare(text.size()-suffix.size(), suffix.size(), suffix) == 0;
+}
+
 template<typename T>
 void print(T value){
   std::cout << value << std::endl;
@@ -18107,8 +18111,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSuffix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -18412,9 +18415,16 @@ public:
   Discriminator(int entrySize):entrySize(entrySize){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
+    nl::json value;
+
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+
+    value = config["count"];
+    count = value.is_null() ? 0 : value.get<int>();
+
+    value = config["data"];
+    std::string data = value.is_null() ? "" : value.get<std::string>();
+
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
@@ -18629,8 +18639,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSuffix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -18650,9 +18659,15 @@ protected:
       }
     }
     else{
-      int pos=0;
+      if(data.empty() && mapping.size() > 1){
+        data = std::string(mapping.size()-1,'.');
+      }
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        if(pos > data.size()){
+          throw Exception("The data has fewer RAMs than the mapping!");
+        }
+        size_t found = std::min(data.find('.',pos), data.size());
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
@@ -18680,7 +18695,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/common/utils.cc b/src/common/utils.cc
index f8f10ac..44098f4 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -57,6 +57,10 @@ T convertToValue(const std::string &data)
   return out;
 }
 
+inline bool hasSuffix(const std::string& text, const std::string& suffix){
+  return text.size() >= suffix.size() && text.compare(text.size()-suffix.size(), suffix.size(), suffix) == 0;
+}
+
 template<typename T>
 void print(T value){
   std::cout << value << std::endl;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 082b411..c4b36d7 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -5,9 +5,16 @@ public:
   Discriminator(int entrySize):entrySize(entrySize){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
+    nl::json value;
+
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+
+    value = config["count"];
+    count = value.is_null() ? 0 : value.get<int>();
+
+    value = config["data"];
+    std::string data = value.is_null() ? "" : value.get<std::string>();
+
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
@@ -222,8 +229,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSuffix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -243,9 +249,15 @@ protected:
       }
     }
     else{
-      int pos=0;
+      if(data.empty() && mapping.size() > 1){
+        data = std::string(mapping.size()-1,'.');
+      }
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        if(pos > data.size()){
+          throw Exception("The data has fewer RAMs than the mapping!");
+        }
+        size_t found = std::min(data.find('.',pos), data.size());
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
@@ -273,7 +285,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2a4fc73..5c2fb0a 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -69,8 +69,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSuffix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
-- 
2.43.0


From 6f462d1cac529009f573bb21c78f9cd0454b74c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 08/41] fix: refuse address sizes beyond 2^64 for every base

The check compared the power, already reduced modulo 2^64, with 2^64-1, so only base 2 was checked.
---
 include/wisardpkg.hpp    | 9 ++++++---
 src/models/wisard/ram.cc | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 60626c7..8498285 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18390,9 +18390,12 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggest = 0;
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit - (basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + (basein-1);
     }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index cfc2a0e..1a503aa 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -165,9 +165,12 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggest = 0;
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit - (basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + (basein-1);
     }
   }
 
-- 
2.43.0


From 92e146cffe4f67ea62b9402a218037b4384ac924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 09/41] fix: mental images of address sizes above 31 bits

The 64 bit address was cut to an int before it was taken apart.
---
 include/wisardpkg.hpp    | 4 ++--
 src/models/wisard/ram.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 8498285..cb3340e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18378,9 +18378,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 1a503aa..c196fb3 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -153,9 +153,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
-- 
2.43.0


From 0587cd94b58e427ba53705f2b2974784aa0b3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 10/41] fix: compare the best class with the runner-up whatever
 their order

With a confidence above 1 a new best class was taken to be unambiguous even when the class before
it was closer than the confidence, so the answer depended on how the labels sort.
---
 include/wisardpkg.hpp   | 11 ++++++-----
 src/common/bleaching.cc | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index cb3340e..de74215 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17543,17 +17543,18 @@ public:
 
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
-    int biggest = 0;
-    bool ambiguity = false;
+    int biggest = -1;
+    int secondBiggest = -1;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = candidates.size() > 1 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 56f417b..1128663 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -61,17 +61,18 @@ public:
 
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
-    int biggest = 0;
-    bool ambiguity = false;
+    int biggest = -1;
+    int secondBiggest = -1;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = candidates.size() > 1 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
-- 
2.43.0


From 663b68bdc397bd2604cadeaf64548ff8a07a35bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 11/41] fix: the confidence of a tie, and of a score of zero,
 is zero

Classes tied with the winner were skipped when looking for the runner-up, and a score of zero gave
not-a-number.
---
 include/wisardpkg.hpp   | 7 ++++++-
 src/common/bleaching.cc | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index de74215..ddba4a6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17532,9 +17532,14 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest <= 0) return 0;
     float secondBiggest = 0;
+    bool winnerSeen = false;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
-      if(i->second >= secondBiggest && i->second < biggest){
+      if(i->second == biggest && !winnerSeen){
+        winnerSeen = true;
+      }
+      else if(i->second >= secondBiggest){
         secondBiggest = i->second;
       }
     }
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 1128663..609509a 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -50,9 +50,14 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest <= 0) return 0;
     float secondBiggest = 0;
+    bool winnerSeen = false;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
-      if(i->second >= secondBiggest && i->second < biggest){
+      if(i->second == biggest && !winnerSeen){
+        winnerSeen = true;
+      }
+      else if(i->second >= secondBiggest){
         secondBiggest = i->second;
       }
     }
-- 
2.43.0


From 56612ebeb04fec3effcfccce9b93b1cd851480df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 12/41] fix: take the activation degree from the RAMs the
 winner really has

It was divided by the number of RAMs a random addressing would have, also when the class is
addressed by mapping or indexes, and computing that number crashed on an empty list of entries.
---
 src/wrappers/cluswisardwrapper.cc |  5 ++---
 src/wrappers/wisardwrapper.cc     | 10 +++++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 310e78d..58248e5 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -39,8 +39,6 @@ public:
   }
 
   py::list pyClassify(const std::vector<std::vector<int>>& images){
-    float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-
     py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
@@ -53,7 +51,8 @@ public:
       }
 
       if(returnActivationDegree){
-        float activationDegree = candidates[label]/numberOfRAMS;
+        float numberOfRAMS = clusters.empty() ? 0 : calculateNumberOfRams(images[i].size(), addressSize, completeAddressing);
+        float activationDegree = numberOfRAMS > 0 ? candidates[label]/numberOfRAMS : 0;
         labels[i]["activationDegree"]=activationDegree;
       }
 
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 2d55d87..7758b70 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -43,13 +43,15 @@ public:
     }
   }
 
-  void setClassifyOutput(py::list& labels, int i, std::string aClass, float numberOfRAMS, std::map<std::string,int>& candidates){
+  void setClassifyOutput(py::list& labels, int i, std::string aClass, std::map<std::string,int>& candidates){
     if(returnConfidence || returnActivationDegree || returnClassesDegrees){
       labels[i] = py::dict(py::arg("class")=aClass);
     }
 
     if(returnActivationDegree){
-      float activationDegree = candidates[aClass]/numberOfRAMS;
+      auto winner = discriminators.find(aClass);
+      float numberOfRAMS = winner == discriminators.end() ? 0 : winner->second.getNumberOfRAMS();
+      float activationDegree = numberOfRAMS > 0 ? candidates[aClass]/numberOfRAMS : 0;
       labels[i]["activationDegree"]=activationDegree;
     }
 
@@ -91,14 +93,12 @@ protected:
 
   template<typename T>
   py::list _pyClassify(const T& images){
-    float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-
     py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
       std::string aClass = Bleaching::getBiggestCandidate(candidates);
-      setClassifyOutput(labels, i, aClass, numberOfRAMS, candidates);
+      setClassifyOutput(labels, i, aClass, candidates);
     }
     if(verbose) std::cout << "\r" << std::endl;
     return labels;
-- 
2.43.0


From c3868e880a221597cc6bf4c7877f4f274366b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 13/41] fix: empty lists of entries and address size 0 no
 longer crash training

The first entry of an empty list was read, and the number of RAMs divided by address size 0.
---
 include/wisardpkg.hpp               | 13 ++++++++++---
 src/common/utils.cc                 |  3 +++
 src/models/cluswisard/cluswisard.cc |  6 ++++--
 src/models/wisard/wisard.cc         |  4 +++-
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ddba4a6..b896e62 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17351,6 +17351,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 1!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
@@ -18875,6 +18878,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -18884,9 +18888,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
@@ -19331,9 +19336,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -19343,9 +19349,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 44098f4..4661005 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -21,6 +21,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 1!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 233ba92..5084a85 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -77,9 +77,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -89,9 +90,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 9fb8420..dfe730c 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -74,6 +74,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -83,9 +84,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
-- 
2.43.0


From 7e69de00e3fdb50fff8e3a3380e128f48d9d4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 14/41] fix: refuse positions outside of the entry and, in
 saved models, a base below 2

Negative indexes, and any position of a mapping given directly or in a saved model, were used to
read outside of the entry; a saved base of 0 divided by zero.
---
 include/wisardpkg.hpp              | 19 ++++++++++++++++++-
 src/models/wisard/discriminator.cc | 19 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b896e62..034d10a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18438,6 +18438,12 @@ public:
     std::string data = value.is_null() ? "" : value.get<std::string>();
 
     nl::json mapping = config["mapping"];
+    if(!mapping.is_null()){
+      checkMapping(mapping.get<std::vector<std::vector<int>>>(), entrySize);
+    }
+    if(!config["base"].is_null()){
+      checkBase(config["base"].get<int>());
+    }
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
@@ -18641,6 +18647,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping, entrySize);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -18779,6 +18786,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping, const int entrySize) const{
+    for(unsigned int i=0; i<mapping.size(); i++){
+      for(unsigned int j=0; j<mapping[i].size(); j++){
+        if(mapping[i][j] < 0 || mapping[i][j] >= entrySize){
+          throw Exception("The mapping has a index out of range of entry!");
+        }
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -18786,7 +18803,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index c4b36d7..32cd835 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -16,6 +16,12 @@ public:
     std::string data = value.is_null() ? "" : value.get<std::string>();
 
     nl::json mapping = config["mapping"];
+    if(!mapping.is_null()){
+      checkMapping(mapping.get<std::vector<std::vector<int>>>(), entrySize);
+    }
+    if(!config["base"].is_null()){
+      checkBase(config["base"].get<int>());
+    }
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
@@ -219,6 +225,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping, entrySize);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -357,6 +364,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping, const int entrySize) const{
+    for(unsigned int i=0; i<mapping.size(); i++){
+      for(unsigned int j=0; j<mapping[i].size(); j++){
+        if(mapping[i][j] < 0 || mapping[i][j] >= entrySize){
+          throw Exception("The mapping has a index out of range of entry!");
+        }
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -364,7 +381,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
-- 
2.43.0


From 2435efb9018a4d9e2e2a538bba6a5df1f1d52505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 15/41] fix: a rejected example leaves no trace

A value out of range was found after the example had been counted and partly learned, after its
class or cluster had been created, or after other discriminators of the cluster had learned it;
negative values were not rejected at all.
---
 include/wisardpkg.hpp               | 76 ++++++++++++++++++++---------
 src/models/cluswisard/cluster.cc    | 23 ++++++---
 src/models/cluswisard/cluswisard.cc | 15 ++++--
 src/models/wisard/discriminator.cc  |  9 ++++
 src/models/wisard/ram.cc            | 10 +++-
 src/models/wisard/wisard.cc         | 19 +++++---
 6 files changed, 108 insertions(+), 44 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 034d10a..37cc312 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18278,6 +18278,12 @@ public:
       }
   }
 
+  // throws when the RAM can not read the image
+  template<typename T>
+  void checkImage(const T& image) const{
+    getIndex<T>(image);
+  }
+
   std::vector<std::vector<int>> getMentalImage() {
     std::vector<std::vector<int>> mentalPiece(addresses.size());
     for(unsigned int i=0; i<mentalPiece.size(); i++){
@@ -18409,8 +18415,8 @@ private:
   }
 
   void checkPos(const int code) const{
-    if(code >= base){
-      throw Exception("The input data has a value bigger than base of addresing!");
+    if(code >= base || code < 0){
+      throw Exception("The input data has a value out of the base of addresing!");
     }
   }
 
@@ -18520,6 +18526,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkImage(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -18754,6 +18761,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkImage(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -18762,6 +18770,13 @@ protected:
 
 private:
 
+  template<typename T>
+  void checkImage(const T& image) const{
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].checkImage(image);
+    }
+  }
+
   void checkEntrySize(const int entry) const {
     if(entrySize != entry){
       throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
@@ -18970,10 +18985,15 @@ public:
 protected:
   template<typename T>
   void train(const T& image, const std::string& label){
-    if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+    auto d = discriminators.find(label);
+    if(d == discriminators.end()){
+      Discriminator created = makeDiscriminator(label, image.size());
+      created.train(image);
+      discriminators[label] = created;
+    }
+    else{
+      d->second.train(image);
     }
-    discriminators[label].train(image);
   }
 
   template<typename T>
@@ -19043,19 +19063,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
@@ -19218,21 +19238,26 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator((int)addressSize, (int)entrySize, ignoreZero, completeAddressing, base);
+  // opens a new discriminator with its first example
+  template<typename T>
+  void makeDiscriminator(const T& image){
+    Discriminator created((int)addressSize, (int)entrySize, ignoreZero, completeAddressing, base);
+    created.train(image);
+    int index = discriminators.size();
+    discriminators[index] = created;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(image);
       return;
     }
 
     float bestValue = 0.0;
     bool trained = false;
     Discriminator* bestDiscriminator = NULL;
+    std::vector<Discriminator*> accepted;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
       auto votes = discriminators[i].classify(image);
@@ -19248,15 +19273,17 @@ private:
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i].train(image);
+        accepted.push_back(&discriminators[i]);
         trained = true;
       }
     }
 
+    for(unsigned int i=0; i<accepted.size(); i++){
+      accepted[i]->train(image);
+    }
+
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
-      int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
+      makeDiscriminator(image);
       trained = true;
     }
 
@@ -19487,10 +19514,15 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+    auto cluster = clusters.find(label);
+    if(cluster == clusters.end()){
+      Cluster created = makeClusters(image.size());
+      created.train(image);
+      clusters[label] = created;
+    }
+    else{
+      cluster->second.train(image);
     }
-    clusters[label].train(image);
   }
 
   void train(const std::vector<int>& image){
@@ -19558,8 +19590,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeClusters(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index a2491c6..700b00a 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -130,21 +130,26 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator((int)addressSize, (int)entrySize, ignoreZero, completeAddressing, base);
+  // opens a new discriminator with its first example
+  template<typename T>
+  void makeDiscriminator(const T& image){
+    Discriminator created((int)addressSize, (int)entrySize, ignoreZero, completeAddressing, base);
+    created.train(image);
+    int index = discriminators.size();
+    discriminators[index] = created;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(image);
       return;
     }
 
     float bestValue = 0.0;
     bool trained = false;
     Discriminator* bestDiscriminator = NULL;
+    std::vector<Discriminator*> accepted;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
       auto votes = discriminators[i].classify(image);
@@ -160,15 +165,17 @@ private:
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i].train(image);
+        accepted.push_back(&discriminators[i]);
         trained = true;
       }
     }
 
+    for(unsigned int i=0; i<accepted.size(); i++){
+      accepted[i]->train(image);
+    }
+
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
-      int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
+      makeDiscriminator(image);
       trained = true;
     }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 5084a85..e7af100 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -211,10 +211,15 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+    auto cluster = clusters.find(label);
+    if(cluster == clusters.end()){
+      Cluster created = makeClusters(image.size());
+      created.train(image);
+      clusters[label] = created;
+    }
+    else{
+      cluster->second.train(image);
     }
-    clusters[label].train(image);
   }
 
   void train(const std::vector<int>& image){
@@ -282,8 +287,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeClusters(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 32cd835..8e9f347 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -98,6 +98,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkImage(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -332,6 +333,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkImage(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -340,6 +342,13 @@ protected:
 
 private:
 
+  template<typename T>
+  void checkImage(const T& image) const{
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].checkImage(image);
+    }
+  }
+
   void checkEntrySize(const int entry) const {
     if(entrySize != entry){
       throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index c196fb3..c6d128f 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -44,6 +44,12 @@ public:
       }
   }
 
+  // throws when the RAM can not read the image
+  template<typename T>
+  void checkImage(const T& image) const{
+    getIndex<T>(image);
+  }
+
   std::vector<std::vector<int>> getMentalImage() {
     std::vector<std::vector<int>> mentalPiece(addresses.size());
     for(unsigned int i=0; i<mentalPiece.size(); i++){
@@ -175,8 +181,8 @@ private:
   }
 
   void checkPos(const int code) const{
-    if(code >= base){
-      throw Exception("The input data has a value bigger than base of addresing!");
+    if(code >= base || code < 0){
+      throw Exception("The input data has a value out of the base of addresing!");
     }
   }
 
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index dfe730c..3de89c4 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -149,10 +149,15 @@ public:
 protected:
   template<typename T>
   void train(const T& image, const std::string& label){
-    if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+    auto d = discriminators.find(label);
+    if(d == discriminators.end()){
+      Discriminator created = makeDiscriminator(label, image.size());
+      created.train(image);
+      discriminators[label] = created;
+    }
+    else{
+      d->second.train(image);
     }
-    discriminators[label].train(image);
   }
 
   template<typename T>
@@ -222,19 +227,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
-- 
2.43.0


From b54548800a76ded77524645f4ab55b806d746d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 16/41] fix: save the mapping option of a Wisard

A restored model addressed classes that were trained later at random.
---
 include/wisardpkg.hpp       | 1 +
 src/models/wisard/wisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 37cc312..6bfc8e5 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19050,6 +19050,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 3de89c4..ea0db85 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -214,6 +214,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
-- 
2.43.0


From 8306fb1372886805f5ccdf408a531e7f4d311777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 17/41] fix: forget a RAM position whose examples have all been
 untrained

It stayed in the saved content with the value 0, and went below 0 when untrained again.
---
 include/wisardpkg.hpp    | 4 ++--
 src/models/wisard/ram.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6bfc8e5..bcdfac8 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18273,8 +18273,8 @@ public:
   void untrain(const std::vector<int>& image){
       addr_t index = getIndex(image);
       auto it = positions.find(index);
-      if(it != positions.end()){
-        it->second--;
+      if(it != positions.end() && --it->second == 0){
+        positions.erase(it);
       }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index c6d128f..c1d69b4 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -39,8 +39,8 @@ public:
   void untrain(const std::vector<int>& image){
       addr_t index = getIndex(image);
       auto it = positions.find(index);
-      if(it != positions.end()){
-        it->second--;
+      if(it != positions.end() && --it->second == 0){
+        positions.erase(it);
       }
   }
 
-- 
2.43.0


From ae3399b77d3856010c37585ceebeb92826cc8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 18/41] fix: file-backed saves never mix with earlier files nor
 lose data silently

A drawn name that exists already was appended to, spoiling both saves; files that could not be
written, are missing, or hold too little data were taken to be empty.
---
 include/wisardpkg.hpp              | 29 ++++++++++++++++++++++++-----
 src/models/wisard/discriminator.cc | 25 +++++++++++++++++++++----
 src/models/wisard/ramdatahandle.cc |  4 +++-
 3 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index bcdfac8..1994a82 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18149,7 +18149,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The RAM data is incomplete!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
@@ -18668,9 +18670,14 @@ protected:
     if(hasSuffix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data could not be read!");
+      }
+      else{
         for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-          if(dataFile.eof()) break;
+          if(dataFile.eof()){
+            throw Exception("The file of RAM data has fewer RAMs than the mapping!");
+          }
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
@@ -18705,18 +18712,30 @@ protected:
     }
   }
 
+  // the name of a file that does not exist yet, an earlier save may be restored from those that do
+  std::string getNewFilename(const std::string& prefix){
+    for(int i=0; i<1000; i++){
+      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      if(!std::ifstream(filename).is_open()) return filename;
+    }
+    throw Exception("There is no unused name for the file of RAM data!");
+  }
+
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename = getNewFilename(prefix);
       std::ofstream dataFile;
-      dataFile.open(filename, std::ios::app);
+      dataFile.open(filename);
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
       }
 
       dataFile.close();
+      if(!dataFile){
+        throw Exception("The file of RAM data could not be written!");
+      }
       data = filename;
     }
     else{
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 8e9f347..19500a7 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -240,9 +240,14 @@ protected:
     if(hasSuffix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data could not be read!");
+      }
+      else{
         for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-          if(dataFile.eof()) break;
+          if(dataFile.eof()){
+            throw Exception("The file of RAM data has fewer RAMs than the mapping!");
+          }
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
@@ -277,18 +282,30 @@ protected:
     }
   }
 
+  // the name of a file that does not exist yet, an earlier save may be restored from those that do
+  std::string getNewFilename(const std::string& prefix){
+    for(int i=0; i<1000; i++){
+      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      if(!std::ifstream(filename).is_open()) return filename;
+    }
+    throw Exception("There is no unused name for the file of RAM data!");
+  }
+
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename = getNewFilename(prefix);
       std::ofstream dataFile;
-      dataFile.open(filename, std::ios::app);
+      dataFile.open(filename);
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
       }
 
       dataFile.close();
+      if(!dataFile){
+        throw Exception("The file of RAM data could not be written!");
+      }
       data = filename;
     }
     else{
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 5c2fb0a..94ce314 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -98,7 +98,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The RAM data is incomplete!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
-- 
2.43.0


From 0dfd7448ae06f9d8377863a65195f9558f61a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 19/41] fix: save a data set as it is and refuse what is out of
 its range

Saving gave every unlabelled entry a label and appended to the file of an earlier save, the file of
an empty set could not be loaded, and indexes out of range read outside of the list.
---
 include/wisardpkg.hpp | 23 +++++++++++++++++------
 src/data/dataset.cc   | 23 +++++++++++++++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1994a82..d3e7ec3 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17699,8 +17699,7 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!hasSuffix(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
@@ -17711,7 +17710,12 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
-        int sharp = input.find("#");
+        if(input.empty() && data.empty() && dataFile.eof()) break;
+
+        size_t sharp = input.find("#");
+        if(sharp == std::string::npos){
+          throw Exception("The file of the data set is damaged!");
+        }
         std::string label = Base64::decode(input.substr(0,sharp));
 
         add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
@@ -17742,10 +17746,13 @@ public:
   }
 
   const BinInput& get(int index) const {
-    return data[index];
+    return data.at(index);
   }
 
   std::string getLabel(index_size_t index) const {
+    if(index >= data.size()) {
+      throw Exception("Index out of range!");
+    }
     return labels.at(index);
   }
 
@@ -17756,13 +17763,17 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label == labels.end() ? "" : label->second) + "#" + data[i].data();
     }
 
     dataFile.close();
+    if(!dataFile){
+      throw Exception("The file of the data set could not be written!");
+    }
   }
 
 private:
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 6f312e8..2f527fd 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -2,8 +2,7 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!hasSuffix(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
@@ -14,7 +13,12 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
-        int sharp = input.find("#");
+        if(input.empty() && data.empty() && dataFile.eof()) break;
+
+        size_t sharp = input.find("#");
+        if(sharp == std::string::npos){
+          throw Exception("The file of the data set is damaged!");
+        }
         std::string label = Base64::decode(input.substr(0,sharp));
 
         add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
@@ -45,10 +49,13 @@ public:
   }
 
   const BinInput& get(int index) const {
-    return data[index];
+    return data.at(index);
   }
 
   std::string getLabel(index_size_t index) const {
+    if(index >= data.size()) {
+      throw Exception("Index out of range!");
+    }
     return labels.at(index);
   }
 
@@ -59,13 +66,17 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label == labels.end() ? "" : label->second) + "#" + data[i].data();
     }
 
     dataFile.close();
+    if(!dataFile){
+      throw Exception("The file of the data set could not be written!");
+    }
   }
 
 private:
-- 
2.43.0


From c6be946690e2a9dfb16a8c830ff7e184c8a0b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 20/41] fix: reading a RAMDataHandle changes nothing and
 reaches all addresses

get() and data() inserted the cell or RAM they were asked for, addresses above 31 bits could not be
named, RAM numbers out of range lost data, and saving appended to an earlier file.
---
 include/wisardpkg.hpp              | 28 ++++++++++++++++++----------
 src/models/wisard/ramdatahandle.cc | 28 ++++++++++++++++++----------
 src/wisard_bind.cc                 |  4 ++--
 3 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index d3e7ec3..b85e9df 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18069,15 +18069,22 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    return ramdata[r][addr];
+  int get(int r, addr_t addr) const {
+    auto ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    auto cell = ram->second.find(addr);
+    return cell == ram->second.end() ? 0 : cell->second;
   }
 
-  ram_t get(int r){
-    return ramdata[r];
+  ram_t get(int r) const {
+    auto ram = ramdata.find(r);
+    return ram == ramdata.end() ? ram_t() : ram->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
+    if(r < 0 || r > (int)ramdata.size()){
+      throw Exception("Index out of range!");
+    }
     ramdata[r][addr] = value;
   }
 
@@ -18105,9 +18112,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
@@ -18118,7 +18126,7 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
@@ -18146,8 +18154,8 @@ private:
       }
     }
     else{
-      int pos=0;
-      unsigned int found = 0;
+      size_t pos=0;
+      size_t found = 0;
       while(found < inputdata.size()){
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 94ce314..86f2919 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -7,15 +7,22 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    return ramdata[r][addr];
+  int get(int r, addr_t addr) const {
+    auto ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    auto cell = ram->second.find(addr);
+    return cell == ram->second.end() ? 0 : cell->second;
   }
 
-  ram_t get(int r){
-    return ramdata[r];
+  ram_t get(int r) const {
+    auto ram = ramdata.find(r);
+    return ram == ramdata.end() ? ram_t() : ram->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
+    if(r < 0 || r > (int)ramdata.size()){
+      throw Exception("Index out of range!");
+    }
     ramdata[r][addr] = value;
   }
 
@@ -43,9 +50,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
@@ -56,7 +64,7 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
@@ -84,8 +92,8 @@ private:
       }
     }
     else{
-      int pos=0;
-      unsigned int found = 0;
+      size_t pos=0;
+      size_t found = 0;
       while(found < inputdata.size()){
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 564927f..14f6579 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -44,8 +44,8 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<RAMDataHandle>(m, "RAMDataHandle")
       .def(py::init<std::string>())
       .def("set", &RAMDataHandle::set)
-      .def("get", (int (RAMDataHandle::*)(int,int)) &RAMDataHandle::get)
-      .def("get", (ram_t (RAMDataHandle::*)(int)) &RAMDataHandle::get)
+      .def("get", (int (RAMDataHandle::*)(int,addr_t) const) &RAMDataHandle::get)
+      .def("get", (ram_t (RAMDataHandle::*)(int) const) &RAMDataHandle::get)
       .def("data", (std::string (RAMDataHandle::*)()) &RAMDataHandle::data)
       .def("data", (std::string (RAMDataHandle::*)(int)) &RAMDataHandle::data)
       .def("compare", &RAMDataHandle::compare)
-- 
2.43.0


From 80540bb8875cfe6457f2f29f7541285dce017775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 21/41] fix: Synthesizer draws afresh every time and accepts
 blank images

make() set the generator back to the clock, so all draws within a second were the same, and divided
by zero for an image without any intensity.
---
 include/wisardpkg.hpp              | 3 ++-
 src/synthetic_data/synthesizers.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b85e9df..d4f9fe0 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17790,8 +17790,9 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData == 0) return out;
+    int index = randint(0, maxData-1, false);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 21c917b..ed3fc06 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -8,8 +8,9 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData == 0) return out;
+    int index = randint(0, maxData-1, false);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
-- 
2.43.0


From cc4535c7e374d3383c17cf53db8151e3b1370a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 22/41] fix: refuse BinInput data with an impossible number of
 unused bits

The size computed from it was beyond the stored bits, which were then read out of bounds.
---
 include/wisardpkg.hpp | 3 +++
 src/data/bininput.cc  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index d4f9fe0..f9f43ca 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17650,6 +17650,9 @@ public:
 
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
+    if(decodedData.empty() || decodedData[0] < 0 || decodedData[0] > 7 || (decodedData.size() == 1 && decodedData[0] != 0)){
+      throw Exception("The data of the input is damaged!");
+    }
     int s = sizeof(char);
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 332bc28..d27d015 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -14,6 +14,9 @@ public:
 
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
+    if(decodedData.empty() || decodedData[0] < 0 || decodedData[0] > 7 || (decodedData.size() == 1 && decodedData[0] != 0)){
+      throw Exception("The data of the input is damaged!");
+    }
     int s = sizeof(char);
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
-- 
2.43.0


From 99f92cfbef61c5c8e4b4fd63b6a5a1885821efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 23/41] fix: KernelCanvas knows its dimension and checks points
 before reading them

The public constructor of the C++ header left the dimension unset, and points of another dimension
were read out of bounds before they were refused.
---
 include/wisardpkg.hpp            | 7 +++++--
 src/binarization/kernelcanvas.cc | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f9f43ca..645fa6b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17847,7 +17847,7 @@ class BinBase {
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
@@ -17863,6 +17863,10 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++){
+      checkDimension(sequenceData[i].size());
+    }
+
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -17877,7 +17881,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 962f121..05c4d62 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -1,7 +1,7 @@
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
@@ -17,6 +17,10 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++){
+      checkDimension(sequenceData[i].size());
+    }
+
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -31,7 +35,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
-- 
2.43.0


From d5ec2e2e1091e73fc2f6e85734a2457ae476d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 24/41] fix: KernelCanvas keeps inside its window of points
 when it uses the direction

The positions of the directions were computed beyond the end of the window (overwriting the heap),
the window was not rotated, and its start was repeated for every point.
---
 include/wisardpkg.hpp            | 15 ++++++++-------
 src/binarization/kernelcanvas.cc | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 645fa6b..c184853 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17954,8 +17954,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -17973,7 +17973,7 @@ protected:
           int ix = indexes[pi]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
+          if(j%amplifyDim == (amplifyDim-1)) pi++;
         }
       }
       else{
@@ -18002,7 +18002,7 @@ protected:
     const std::vector<double>& means,
     const std::vector<double>& stds,
     std::vector<int>& indexes,
-    bool first){
+    bool& first){
 
     if(useDirection){
       int ix = switchIndexes(indexes);
@@ -18016,7 +18016,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -18029,7 +18029,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -18039,9 +18039,10 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
+        first = false;
       }
     }
     else{
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 05c4d62..b1d9482 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -108,8 +108,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -127,7 +127,7 @@ protected:
           int ix = indexes[pi]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
+          if(j%amplifyDim == (amplifyDim-1)) pi++;
         }
       }
       else{
@@ -156,7 +156,7 @@ protected:
     const std::vector<double>& means,
     const std::vector<double>& stds,
     std::vector<int>& indexes,
-    bool first){
+    bool& first){
 
     if(useDirection){
       int ix = switchIndexes(indexes);
@@ -170,7 +170,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -183,7 +183,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -193,9 +193,10 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
+        first = false;
       }
     }
     else{
-- 
2.43.0


From f727c6fe83a97ff0ba2262dd3b84993c4f1c6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 25/41] fix: KernelCanvas transforms sequences with a constant
 dimension

Dividing by a deviation of zero made every distance not-a-number, so the kernels activated had
nothing to do with the points.
---
 include/wisardpkg.hpp            | 19 ++++++++++++-------
 src/binarization/kernelcanvas.cc | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c184853..3440574 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17952,6 +17952,11 @@ protected:
     return (i[1] < j[1]);
   }
 
+  // a dimension that does not vary in the sequence is at its mean everywhere
+  static double normalize(double mean, double value, double std){
+    return std > 0 ? std::tanh((mean - value)/std) : 0;
+  }
+
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
     ix[2] = ix[1];
@@ -18008,25 +18013,25 @@ protected:
       int ix = switchIndexes(indexes);
 
       int ipp = ix*amplifyDim;
-      point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
+      point[ipp] = normalize(means[0], sequenceData[index][0], stds[0]);
       double aback = 0.0;
       double afront = 0.0;
       if(index+1 < (int)sequenceData.size())
-        aback = std::tanh((means[0] - sequenceData[index+1][0])/stds[0]);
+        aback = normalize(means[0], sequenceData[index+1][0], stds[0]);
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
         int sinix = ix*amplifyDim + dim + 2*(j-1);
 
-        point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[ip] = normalize(means[j], sequenceData[index][j], stds[j]);
         if(index+1 < (int)sequenceData.size()){
-          afront = std::tanh((means[j] - sequenceData[index+1][j])/stds[j]);
+          afront = normalize(means[j], sequenceData[index+1][j], stds[j]);
 
           double dx = aback - point[ipp];
           double dy = afront - point[ip];
           double hypotenuse = std::sqrt( dy*dy + dx*dx );
-          point[sinix] = dx/hypotenuse;
-          point[sinix+1] = dy/hypotenuse;
+          point[sinix] = hypotenuse > 0 ? dx/hypotenuse : 0;
+          point[sinix+1] = hypotenuse > 0 ? dy/hypotenuse : 0;
         }
         else{
           int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
@@ -18047,7 +18052,7 @@ protected:
     }
     else{
       for(int j=0; j<dim; j++){
-        point[j] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[j] = normalize(means[j], sequenceData[index][j], stds[j]);
       }
     }
   }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index b1d9482..2fad6a3 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -106,6 +106,11 @@ protected:
     return (i[1] < j[1]);
   }
 
+  // a dimension that does not vary in the sequence is at its mean everywhere
+  static double normalize(double mean, double value, double std){
+    return std > 0 ? std::tanh((mean - value)/std) : 0;
+  }
+
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
     ix[2] = ix[1];
@@ -162,25 +167,25 @@ protected:
       int ix = switchIndexes(indexes);
 
       int ipp = ix*amplifyDim;
-      point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
+      point[ipp] = normalize(means[0], sequenceData[index][0], stds[0]);
       double aback = 0.0;
       double afront = 0.0;
       if(index+1 < (int)sequenceData.size())
-        aback = std::tanh((means[0] - sequenceData[index+1][0])/stds[0]);
+        aback = normalize(means[0], sequenceData[index+1][0], stds[0]);
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
         int sinix = ix*amplifyDim + dim + 2*(j-1);
 
-        point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[ip] = normalize(means[j], sequenceData[index][j], stds[j]);
         if(index+1 < (int)sequenceData.size()){
-          afront = std::tanh((means[j] - sequenceData[index+1][j])/stds[j]);
+          afront = normalize(means[j], sequenceData[index+1][j], stds[j]);
 
           double dx = aback - point[ipp];
           double dy = afront - point[ip];
           double hypotenuse = std::sqrt( dy*dy + dx*dx );
-          point[sinix] = dx/hypotenuse;
-          point[sinix+1] = dy/hypotenuse;
+          point[sinix] = hypotenuse > 0 ? dx/hypotenuse : 0;
+          point[sinix+1] = hypotenuse > 0 ? dy/hypotenuse : 0;
         }
         else{
           int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
@@ -201,7 +206,7 @@ protected:
     }
     else{
       for(int j=0; j<dim; j++){
-        point[j] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[j] = normalize(means[j], sequenceData[index][j], stds[j]);
       }
     }
   }
-- 
2.43.0


From 244c03e42bb2ce0c3d116e003f49673f088b83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 26/41] fix: Discriminator takes BinInput from Python

BinInput has items but no length, so trying it as a list first raised a TypeError before the
overload for BinInput was reached.
---
 src/wisard_bind.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 14f6579..feb0fc8 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -55,11 +55,11 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<DiscriminatorWrapper>(m, "Discriminator")
       .def(py::init<std::string>())
       .def(py::init<int,int,py::kwargs>())
-      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::train)
+      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const std::vector<std::vector<int>>&)) &DiscriminatorWrapper::train)
-      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::classify)
+      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("jsonConfig",(std::string (DiscriminatorWrapper::*)())  &DiscriminatorWrapper::jsonConfig)
       .def("json", (std::string (DiscriminatorWrapper::*)()) &DiscriminatorWrapper::json)
       .def("json", (std::string (DiscriminatorWrapper::*)(bool)) &DiscriminatorWrapper::json)
-- 
2.43.0


From 11a5421f8bee550e4b9573d06c24c38cd6ab8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 27/41] fix: degrees of an untrained model list no class that
 does not exist

---
 src/wrappers/cluswisardwrapper.cc | 7 +++++--
 src/wrappers/wisardwrapper.cc     | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 58248e5..af04c38 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -50,14 +50,17 @@ public:
         labels[i] = py::dict(py::arg("class")=aClass);
       }
 
+      auto found = candidates.find(label);
+      int score = found == candidates.end() ? 0 : found->second;
+
       if(returnActivationDegree){
         float numberOfRAMS = clusters.empty() ? 0 : calculateNumberOfRams(images[i].size(), addressSize, completeAddressing);
-        float activationDegree = numberOfRAMS > 0 ? candidates[label]/numberOfRAMS : 0;
+        float activationDegree = numberOfRAMS > 0 ? score/numberOfRAMS : 0;
         labels[i]["activationDegree"]=activationDegree;
       }
 
       if(returnConfidence){
-        float confidence = Bleaching::getConfidence(candidates, candidates[label]);
+        float confidence = Bleaching::getConfidence(candidates, score);
         labels[i]["confidence"]=confidence;
       }
 
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 7758b70..75cf3f8 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -48,15 +48,18 @@ public:
       labels[i] = py::dict(py::arg("class")=aClass);
     }
 
+    auto found = candidates.find(aClass);
+    int score = found == candidates.end() ? 0 : found->second;
+
     if(returnActivationDegree){
       auto winner = discriminators.find(aClass);
       float numberOfRAMS = winner == discriminators.end() ? 0 : winner->second.getNumberOfRAMS();
-      float activationDegree = numberOfRAMS > 0 ? candidates[aClass]/numberOfRAMS : 0;
+      float activationDegree = numberOfRAMS > 0 ? score/numberOfRAMS : 0;
       labels[i]["activationDegree"]=activationDegree;
     }
 
     if(returnConfidence){
-      float confidence = Bleaching::getConfidence(candidates, candidates[aClass]);
+      float confidence = Bleaching::getConfidence(candidates, score);
       labels[i]["confidence"]=confidence;
     }
 
-- 
2.43.0


From fe0cdfeb833a9c5526415aa0eff838da18da2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 28/41] fix: a new class takes entries of the size the model
 has, not any

---
 include/wisardpkg.hpp               | 20 ++++++++++++++------
 src/models/cluswisard/cluster.cc    |  6 ++++++
 src/models/cluswisard/cluswisard.cc |  1 +
 src/models/wisard/discriminator.cc  | 12 ++++++------
 src/models/wisard/wisard.cc         |  1 +
 5 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 3440574..8dd83d1 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18575,6 +18575,12 @@ public:
     return rams.size();
   }
 
+  void checkEntrySize(const int entry) const {
+    if(entrySize != entry){
+      throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
+    }
+  }
+
   std::vector<int> getMentalImage()
   {
     std::vector<int> mentalImage(entrySize, 0);
@@ -18828,12 +18834,6 @@ private:
     }
   }
 
-  void checkEntrySize(const int entry) const {
-    if(entrySize != entry){
-      throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
-    }
-  }
-
   void checkBase(const int base){
     if(base < 2){
       throw Exception("The base can't be lesser than 2!");
@@ -19038,6 +19038,7 @@ protected:
   void train(const T& image, const std::string& label){
     auto d = discriminators.find(label);
     if(d == discriminators.end()){
+      if(!discriminators.empty()) discriminators.begin()->second.checkEntrySize(image.size());
       Discriminator created = makeDiscriminator(label, image.size());
       created.train(image);
       discriminators[label] = created;
@@ -19263,6 +19264,12 @@ public:
     return config;
   }
 
+  void checkEntrySize(const int entry) const {
+    if((int)entrySize != entry){
+      throw Exception("The entry size of the model is different of entry size given as input!");
+    }
+  }
+
   int getSize(){
     return discriminators.size();
   }
@@ -19568,6 +19575,7 @@ protected:
   void train(const std::vector<int>& image, const std::string& label){
     auto cluster = clusters.find(label);
     if(cluster == clusters.end()){
+      if(!clusters.empty()) clusters.begin()->second.checkEntrySize(image.size());
       Cluster created = makeClusters(image.size());
       created.train(image);
       clusters[label] = created;
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 700b00a..b71200f 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -103,6 +103,12 @@ public:
     return config;
   }
 
+  void checkEntrySize(const int entry) const {
+    if((int)entrySize != entry){
+      throw Exception("The entry size of the model is different of entry size given as input!");
+    }
+  }
+
   int getSize(){
     return discriminators.size();
   }
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index e7af100..e9ea057 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -213,6 +213,7 @@ protected:
   void train(const std::vector<int>& image, const std::string& label){
     auto cluster = clusters.find(label);
     if(cluster == clusters.end()){
+      if(!clusters.empty()) clusters.begin()->second.checkEntrySize(image.size());
       Cluster created = makeClusters(image.size());
       created.train(image);
       clusters[label] = created;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 19500a7..953ff0a 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -113,6 +113,12 @@ public:
     return rams.size();
   }
 
+  void checkEntrySize(const int entry) const {
+    if(entrySize != entry){
+      throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
+    }
+  }
+
   std::vector<int> getMentalImage()
   {
     std::vector<int> mentalImage(entrySize, 0);
@@ -366,12 +372,6 @@ private:
     }
   }
 
-  void checkEntrySize(const int entry) const {
-    if(entrySize != entry){
-      throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
-    }
-  }
-
   void checkBase(const int base){
     if(base < 2){
       throw Exception("The base can't be lesser than 2!");
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index ea0db85..6563eba 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -151,6 +151,7 @@ protected:
   void train(const T& image, const std::string& label){
     auto d = discriminators.find(label);
     if(d == discriminators.end()){
+      if(!discriminators.empty()) discriminators.begin()->second.checkEntrySize(image.size());
       Discriminator created = makeDiscriminator(label, image.size());
       created.train(image);
       discriminators[label] = created;
-- 
2.43.0


From dae39bbe0ccf07d63a4fc1f2e6b5e5ee030586eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 29/41] fix: bleaching ends quickly whatever the counts

---
 include/wisardpkg.hpp   | 6 ++++--
 src/common/bleaching.cc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 8dd83d1..c736f51 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17502,20 +17502,22 @@ public:
 
   static std::map<std::string, int> makeConfidenceless(std::map<std::string,std::vector<int>>& allvotes, const bool bleachingActivated, const int confidence) {
     std::map<std::string, int> labels;
-    int bleaching = 1;
+    long long bleaching = 1;
     std::tuple<bool,int> ambiguity;
 
     do{
+      long long lowest = 0;
       for(std::map<std::string,std::vector<int>>::iterator i=allvotes.begin(); i!=allvotes.end(); ++i){
         labels[i->first] = 0;
         for(unsigned int j=0; j<i->second.size(); j++){
           if(i->second[j] >= bleaching){
             labels[i->first]++;
+            if(lowest == 0 || i->second[j] < lowest) lowest = i->second[j];
           }
         }
       }
       if(!bleachingActivated) break;
-      bleaching++;
+      bleaching = lowest + 1; // no threshold up to there changes a score
       ambiguity = isThereAmbiguity(labels, confidence);
     }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );
 
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 609509a..1fb1ed4 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -17,20 +17,22 @@ public:
 
   static std::map<std::string, int> makeConfidenceless(std::map<std::string,std::vector<int>>& allvotes, const bool bleachingActivated, const int confidence) {
     std::map<std::string, int> labels;
-    int bleaching = 1;
+    long long bleaching = 1;
     std::tuple<bool,int> ambiguity;
 
     do{
+      long long lowest = 0;
       for(std::map<std::string,std::vector<int>>::iterator i=allvotes.begin(); i!=allvotes.end(); ++i){
         labels[i->first] = 0;
         for(unsigned int j=0; j<i->second.size(); j++){
           if(i->second[j] >= bleaching){
             labels[i->first]++;
+            if(lowest == 0 || i->second[j] < lowest) lowest = i->second[j];
           }
         }
       }
       if(!bleachingActivated) break;
-      bleaching++;
+      bleaching = lowest + 1; // no threshold up to there changes a score
       ambiguity = isThereAmbiguity(labels, confidence);
     }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );
 
-- 
2.43.0


From 7c216bb32e0ded0c00c0d15ca9f1dbd4a4f51ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 30/41] fix: KernelCanvas refuses an activation degree that is
 not a number

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c736f51..7433416 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18066,7 +18066,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 2fad6a3..f098091 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -218,7 +218,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
-- 
2.43.0


From bc2501a7cf0e65964f82863d21dd6b2916e38934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 31/41] fix: a file that can not be read to its end is refused

---
 include/wisardpkg.hpp              | 9 +++++++++
 src/data/dataset.cc                | 3 +++
 src/models/wisard/discriminator.cc | 3 +++
 src/models/wisard/ramdatahandle.cc | 3 +++
 4 files changed, 18 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7433416..6e434ab 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17715,6 +17715,9 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of the data set could not be read!");
+        }
         if(input.empty() && data.empty() && dataFile.eof()) break;
 
         size_t sharp = input.find("#");
@@ -18163,6 +18166,9 @@ private:
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.bad()){
+            throw Exception("The file of RAM data could not be read!");
+          }
           ramdata[ramdata.size()] = dataToRam(rdata);
         }
         dataFile.close();
@@ -18721,6 +18727,9 @@ protected:
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.bad()){
+            throw Exception("The file of RAM data could not be read!");
+          }
           nl::json base = {
             {"addresses", *it},
             {"data", rdata}
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 2f527fd..81ba97d 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -13,6 +13,9 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
+        if(dataFile.bad()){
+          throw Exception("The file of the data set could not be read!");
+        }
         if(input.empty() && data.empty() && dataFile.eof()) break;
 
         size_t sharp = input.find("#");
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 953ff0a..95dbe25 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -257,6 +257,9 @@ protected:
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.bad()){
+            throw Exception("The file of RAM data could not be read!");
+          }
           nl::json base = {
             {"addresses", *it},
             {"data", rdata}
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 86f2919..ea01949 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -86,6 +86,9 @@ private:
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.bad()){
+            throw Exception("The file of RAM data could not be read!");
+          }
           ramdata[ramdata.size()] = dataToRam(rdata);
         }
         dataFile.close();
-- 
2.43.0


From e71d47936418fc2fc40559e8157bd145714aacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 32/41] fix: RAMDataHandle reports a file it could not write

---
 include/wisardpkg.hpp              | 3 +++
 src/models/wisard/ramdatahandle.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6e434ab..c8913c3 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18151,6 +18151,9 @@ public:
     }
 
     dataFile.close();
+    if(!dataFile){
+      throw Exception("The file of RAM data could not be written!");
+    }
   }
 
 private:
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index ea01949..04157bd 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -71,6 +71,9 @@ public:
     }
 
     dataFile.close();
+    if(!dataFile){
+      throw Exception("The file of RAM data could not be written!");
+    }
   }
 
 private:
-- 
2.43.0


From fd8b09d4e6cf3dd080c3497f9c1082601ba5e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:12 +0000
Subject: [PATCH 33/41] fix: a file of a DataSet or RAMDataHandle that can not
 be opened is refused

---
 include/wisardpkg.hpp              | 10 ++++++++--
 src/data/dataset.cc                |  5 ++++-
 src/models/wisard/ramdatahandle.cc |  5 ++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c8913c3..714007a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17709,7 +17709,10 @@ public:
     }
     std::ifstream dataFile;
     dataFile.open(filename);
-    if(dataFile.is_open()){
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set could not be read!");
+    }
+    else{
       while(true){
         if(dataFile.eof()) break;
 
@@ -18163,7 +18166,10 @@ private:
     if(hasSuffix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data could not be read!");
+      }
+      else{
         while(true){
           if(dataFile.eof()) break;
 
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 81ba97d..0c83362 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -7,7 +7,10 @@ public:
     }
     std::ifstream dataFile;
     dataFile.open(filename);
-    if(dataFile.is_open()){
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set could not be read!");
+    }
+    else{
       while(true){
         if(dataFile.eof()) break;
 
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 04157bd..e02e036 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -83,7 +83,10 @@ private:
     if(hasSuffix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data could not be read!");
+      }
+      else{
         while(true){
           if(dataFile.eof()) break;
 
-- 
2.43.0


From d130800f08ca509ed33f563c0c33d0f21875711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 34/41] fix: running out of memory leaves no empty class,
 cluster or discriminator behind

---
 include/wisardpkg.hpp               | 6 +++---
 src/models/cluswisard/cluster.cc    | 2 +-
 src/models/cluswisard/cluswisard.cc | 2 +-
 src/models/wisard/wisard.cc         | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 714007a..b2713a9 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19061,7 +19061,7 @@ protected:
       if(!discriminators.empty()) discriminators.begin()->second.checkEntrySize(image.size());
       Discriminator created = makeDiscriminator(label, image.size());
       created.train(image);
-      discriminators[label] = created;
+      discriminators.insert(std::make_pair(label, created));
     }
     else{
       d->second.train(image);
@@ -19323,7 +19323,7 @@ private:
     Discriminator created((int)addressSize, (int)entrySize, ignoreZero, completeAddressing, base);
     created.train(image);
     int index = discriminators.size();
-    discriminators[index] = created;
+    discriminators.insert(std::make_pair(index, created));
   }
 
   template<typename T>
@@ -19598,7 +19598,7 @@ protected:
       if(!clusters.empty()) clusters.begin()->second.checkEntrySize(image.size());
       Cluster created = makeClusters(image.size());
       created.train(image);
-      clusters[label] = created;
+      clusters.insert(std::make_pair(label, created));
     }
     else{
       cluster->second.train(image);
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index b71200f..18f6184 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -142,7 +142,7 @@ private:
     Discriminator created((int)addressSize, (int)entrySize, ignoreZero, completeAddressing, base);
     created.train(image);
     int index = discriminators.size();
-    discriminators[index] = created;
+    discriminators.insert(std::make_pair(index, created));
   }
 
   template<typename T>
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index e9ea057..b3e5006 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -216,7 +216,7 @@ protected:
       if(!clusters.empty()) clusters.begin()->second.checkEntrySize(image.size());
       Cluster created = makeClusters(image.size());
       created.train(image);
-      clusters[label] = created;
+      clusters.insert(std::make_pair(label, created));
     }
     else{
       cluster->second.train(image);
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 6563eba..1333150 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -154,7 +154,7 @@ protected:
       if(!discriminators.empty()) discriminators.begin()->second.checkEntrySize(image.size());
       Discriminator created = makeDiscriminator(label, image.size());
       created.train(image);
-      discriminators[label] = created;
+      discriminators.insert(std::make_pair(label, created));
     }
     else{
       d->second.train(image);
-- 
2.43.0


From f62d34c79aa6ea0cc69f0e85005493edc83b605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 35/41] fix: an example is learned completely or not at all
 when memory runs out

---
 include/wisardpkg.hpp              | 46 +++++++++++++++++++++++-------
 src/models/cluswisard/cluster.cc   | 11 +++++--
 src/models/wisard/discriminator.cc | 30 ++++++++++++++-----
 src/models/wisard/ram.cc           |  5 ++--
 4 files changed, 70 insertions(+), 22 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b2713a9..5523d9e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18321,8 +18321,9 @@ public:
     train<BinInput>(image);
   }
 
-  void untrain(const std::vector<int>& image){
-      addr_t index = getIndex(image);
+  template<typename T>
+  void untrain(const T& image){
+      addr_t index = getIndex<T>(image);
       auto it = positions.find(index);
       if(it != positions.end() && --it->second == 0){
         positions.erase(it);
@@ -18576,12 +18577,11 @@ public:
   }
 
   void untrain(const std::vector<int>& image){
-      checkEntrySize(image.size());
-      checkImage(image);
-      count--;
-      for(unsigned int i=0; i<rams.size(); i++){
-        rams[i].untrain(image);
-      }
+    untrain<std::vector<int>>(image);
+  }
+
+  void untrain(const BinInput& image){
+    untrain<BinInput>(image);
   }
 
   int getNumberOfTrainings() const{
@@ -18839,9 +18839,26 @@ protected:
   void train(const T& image) {
     checkEntrySize(image.size());
     checkImage(image);
+    unsigned int trained = 0;
+    try{
+      for(; trained<rams.size(); trained++){
+        rams[trained].train(image);
+      }
+    }
+    catch(...){ // out of memory: nothing of the image is kept
+      while(trained > 0) rams[--trained].untrain(image);
+      throw;
+    }
     count++;
+  }
+
+  template<typename T>
+  void untrain(const T& image) {
+    checkEntrySize(image.size());
+    checkImage(image);
+    count--;
     for(unsigned int i=0; i<rams.size(); i++){
-      rams[i].train(image);
+      rams[i].untrain(image);
     }
   }
 
@@ -19357,8 +19374,15 @@ private:
       }
     }
 
-    for(unsigned int i=0; i<accepted.size(); i++){
-      accepted[i]->train(image);
+    unsigned int done = 0;
+    try{
+      for(; done<accepted.size(); done++){
+        accepted[done]->train(image);
+      }
+    }
+    catch(...){ // out of memory: no discriminator keeps the image
+      while(done > 0) accepted[--done]->untrain(image);
+      throw;
     }
 
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 18f6184..b365f7e 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -176,8 +176,15 @@ private:
       }
     }
 
-    for(unsigned int i=0; i<accepted.size(); i++){
-      accepted[i]->train(image);
+    unsigned int done = 0;
+    try{
+      for(; done<accepted.size(); done++){
+        accepted[done]->train(image);
+      }
+    }
+    catch(...){ // out of memory: no discriminator keeps the image
+      while(done > 0) accepted[--done]->untrain(image);
+      throw;
     }
 
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 95dbe25..4656171 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -97,12 +97,11 @@ public:
   }
 
   void untrain(const std::vector<int>& image){
-      checkEntrySize(image.size());
-      checkImage(image);
-      count--;
-      for(unsigned int i=0; i<rams.size(); i++){
-        rams[i].untrain(image);
-      }
+    untrain<std::vector<int>>(image);
+  }
+
+  void untrain(const BinInput& image){
+    untrain<BinInput>(image);
   }
 
   int getNumberOfTrainings() const{
@@ -360,9 +359,26 @@ protected:
   void train(const T& image) {
     checkEntrySize(image.size());
     checkImage(image);
+    unsigned int trained = 0;
+    try{
+      for(; trained<rams.size(); trained++){
+        rams[trained].train(image);
+      }
+    }
+    catch(...){ // out of memory: nothing of the image is kept
+      while(trained > 0) rams[--trained].untrain(image);
+      throw;
+    }
     count++;
+  }
+
+  template<typename T>
+  void untrain(const T& image) {
+    checkEntrySize(image.size());
+    checkImage(image);
+    count--;
     for(unsigned int i=0; i<rams.size(); i++){
-      rams[i].train(image);
+      rams[i].untrain(image);
     }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index c1d69b4..20b817d 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -36,8 +36,9 @@ public:
     train<BinInput>(image);
   }
 
-  void untrain(const std::vector<int>& image){
-      addr_t index = getIndex(image);
+  template<typename T>
+  void untrain(const T& image){
+      addr_t index = getIndex<T>(image);
       auto it = positions.find(index);
       if(it != positions.end() && --it->second == 0){
         positions.erase(it);
-- 
2.43.0


From 582e2ea89dc66d258281de2d826688d3867666e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 36/41] fix: decoding damaged text does not change the shared
 table of Base64

---
 include/wisardpkg.hpp | 12 +++++++++---
 src/common/utils.cc   | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5523d9e..792a55f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17455,11 +17455,11 @@ public:
     std::string dataOut(size, 0);
     long k=0;
     for(long i=0; i<sizeIn; i+=4){
-      dataOut[k++] = (Base64::indexMap[dataIn[i]] << 2 & 0xfc) | (Base64::indexMap[dataIn[i+1]] >> 4 & 0x03); // first 6 and first 2
+      dataOut[k++] = (indexOf(dataIn[i]) << 2 & 0xfc) | (indexOf(dataIn[i+1]) >> 4 & 0x03); // first 6 and first 2
       if(dataIn[i+2]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+1]] << 4 & 0xf0) | (Base64::indexMap[dataIn[i+2]] >> 2 & 0x0f); // last 4 and first 4
+      dataOut[k++] = (indexOf(dataIn[i+1]) << 4 & 0xf0) | (indexOf(dataIn[i+2]) >> 2 & 0x0f); // last 4 and first 4
       if(dataIn[i+3]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+2]] << 6 & 0xc0) | (Base64::indexMap[dataIn[i+3]] & 0x3f); // last 2 and first 6
+      dataOut[k++] = (indexOf(dataIn[i+2]) << 6 & 0xc0) | (indexOf(dataIn[i+3]) & 0x3f); // last 2 and first 6
     }
     return dataOut;
   }
@@ -17468,6 +17468,12 @@ private:
   static const std::string charsMap;
   static std::unordered_map<char,char> indexMap;
 
+  // looking up a character that is not in the alphabet must not add it to the shared map
+  static char indexOf(const char c){
+    auto it = indexMap.find(c);
+    return it == indexMap.end() ? 0 : it->second;
+  }
+
   static std::unordered_map<char,char> createMap(){
     std::unordered_map<char,char> out;
     for(unsigned int i=0; i<Base64::charsMap.size(); i++){
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 4661005..429e759 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -125,11 +125,11 @@ public:
     std::string dataOut(size, 0);
     long k=0;
     for(long i=0; i<sizeIn; i+=4){
-      dataOut[k++] = (Base64::indexMap[dataIn[i]] << 2 & 0xfc) | (Base64::indexMap[dataIn[i+1]] >> 4 & 0x03); // first 6 and first 2
+      dataOut[k++] = (indexOf(dataIn[i]) << 2 & 0xfc) | (indexOf(dataIn[i+1]) >> 4 & 0x03); // first 6 and first 2
       if(dataIn[i+2]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+1]] << 4 & 0xf0) | (Base64::indexMap[dataIn[i+2]] >> 2 & 0x0f); // last 4 and first 4
+      dataOut[k++] = (indexOf(dataIn[i+1]) << 4 & 0xf0) | (indexOf(dataIn[i+2]) >> 2 & 0x0f); // last 4 and first 4
       if(dataIn[i+3]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+2]] << 6 & 0xc0) | (Base64::indexMap[dataIn[i+3]] & 0x3f); // last 2 and first 6
+      dataOut[k++] = (indexOf(dataIn[i+2]) << 6 & 0xc0) | (indexOf(dataIn[i+3]) & 0x3f); // last 2 and first 6
     }
     return dataOut;
   }
@@ -138,6 +138,12 @@ private:
   static const std::string charsMap;
   static std::unordered_map<char,char> indexMap;
 
+  // looking up a character that is not in the alphabet must not add it to the shared map
+  static char indexOf(const char c){
+    auto it = indexMap.find(c);
+    return it == indexMap.end() ? 0 : it->second;
+  }
+
   static std::unordered_map<char,char> createMap(){
     std::unordered_map<char,char> out;
     for(unsigned int i=0; i<Base64::charsMap.size(); i++){
-- 
2.43.0


From 176c55bab4f684fc29577f2f96e7192ccc7b91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:07 +0000
Subject: [PATCH 37/41] fix: an entry that could not be added to a data set
 leaves no label behind

---
 include/wisardpkg.hpp | 13 +++++++++----
 src/data/dataset.cc   | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 792a55f..9159ddb 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17746,16 +17746,21 @@ public:
   }
 
   void add(const BinInput& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
-    data.push_back(input);
+    if(label.size()>0) labels.insert(std::make_pair((int)data.size(),label));
+    try{
+      data.push_back(input);
+    }
+    catch(...){ // out of memory: the label of the entry goes too
+      labels.erase(data.size());
+      throw;
+    }
   }
 
   void add(const std::vector<short>& input){
     add(input,"");
   }
   void add(const std::vector<short>& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
-    data.push_back(BinInput(input));
+    add(BinInput(input),label);
   }
 
   const BinInput& operator[](int index) const {
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 0c83362..8f2f25b 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -38,16 +38,21 @@ public:
   }
 
   void add(const BinInput& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
-    data.push_back(input);
+    if(label.size()>0) labels.insert(std::make_pair((int)data.size(),label));
+    try{
+      data.push_back(input);
+    }
+    catch(...){ // out of memory: the label of the entry goes too
+      labels.erase(data.size());
+      throw;
+    }
   }
 
   void add(const std::vector<short>& input){
     add(input,"");
   }
   void add(const std::vector<short>& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
-    data.push_back(BinInput(input));
+    add(BinInput(input),label);
   }
 
   const BinInput& operator[](int index) const {
-- 
2.43.0


From ea645a17873255d34cb9877f59b13be85c18aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:07 +0000
Subject: [PATCH 38/41] fix: a value other than 0 and 1 does not spoil other
 bits of a BinInput

---
 include/wisardpkg.hpp | 3 +++
 src/data/bininput.cc  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 9159ddb..0a15175 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17683,6 +17683,9 @@ public:
     if(index >= size()) {
       throw Exception("Index out of range!");
     }
+    if(value != 0 && value != 1) {
+      throw Exception("The value of a bit must be 0 or 1!");
+    }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
     input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index d27d015..00c989a 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -39,6 +39,9 @@ public:
     if(index >= size()) {
       throw Exception("Index out of range!");
     }
+    if(value != 0 && value != 1) {
+      throw Exception("The value of a bit must be 0 or 1!");
+    }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
     input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
-- 
2.43.0


From 9916f4d116185428036a702919bc60245f275c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:07 +0000
Subject: [PATCH 39/41] fix: a Discriminator of an entry size alone has been
 trained no times

---
 include/wisardpkg.hpp              | 2 +-
 src/models/wisard/discriminator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0a15175..22b5853 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18496,7 +18496,7 @@ private:
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     nl::json value;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 4656171..1210f89 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -2,7 +2,7 @@
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     nl::json value;
-- 
2.43.0


From 59d562cf5b4420b7ce45a7cc54198c1d6a32557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:31 +0000
Subject: [PATCH 40/41] fix: activationDegree of a ClusWisard counts the RAMs
 of the winning discriminator

---
 include/wisardpkg.hpp             | 4 ++++
 src/models/cluswisard/cluster.cc  | 4 ++++
 src/wrappers/cluswisardwrapper.cc | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 22b5853..03534b6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19294,6 +19294,10 @@ public:
     return discriminators.size();
   }
 
+  int getNumberOfRAMS(const int index) const{
+    return discriminators.at(index).getNumberOfRAMS();
+  }
+
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
     for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index b365f7e..4825c07 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -82,6 +82,10 @@ public:
     return discriminators.size();
   }
 
+  int getNumberOfRAMS(const int index) const{
+    return discriminators.at(index).getNumberOfRAMS();
+  }
+
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
     for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index af04c38..3541d77 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -54,7 +54,7 @@ public:
       int score = found == candidates.end() ? 0 : found->second;
 
       if(returnActivationDegree){
-        float numberOfRAMS = clusters.empty() ? 0 : calculateNumberOfRams(images[i].size(), addressSize, completeAddressing);
+        float numberOfRAMS = found == candidates.end() ? 0 : clusters.at(aClass).getNumberOfRAMS(std::stoi(label.substr(aClass.size()+2)));
         float activationDegree = numberOfRAMS > 0 ? score/numberOfRAMS : 0;
         labels[i]["activationDegree"]=activationDegree;
       }
-- 
2.43.0


From d92425be456bbd74ed737ca817d910517932676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:05 +0000
Subject: [PATCH 41/41] fix: BinInput reads bits beyond 2^34

---
 include/wisardpkg.hpp | 2 +-
 src/data/bininput.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 03534b6..f2f184b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17674,7 +17674,7 @@ public:
     if(index >= size()) {
       throw Exception("Index out of range!");
     }
-    int section = index/8;
+    index_size_t section = index/8;
     int sectionIndex = 7-(index%8);
     return (input[section] >> sectionIndex) & 0x01;
   }
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 00c989a..d830372 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -30,7 +30,7 @@ public:
     if(index >= size()) {
       throw Exception("Index out of range!");
     }
-    int section = index/8;
+    index_size_t section = index/8;
     int sectionIndex = 7-(index%8);
     return (input[section] >> sectionIndex) & 0x01;
   }
-- 
2.43.0


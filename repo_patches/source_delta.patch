From b10f784ac8b552326f258a6ccd342bbe29efa157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 01/31] fix: MurmurHash3 x64 128 tail must take in all the
 remaining bytes

---
 src/libeopsi/murmurhash3.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 7f0f670..7e33eb7 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -351,50 +351,50 @@ void MurmurHash3::murmurHash3_x64_128 (const void * key, const int len, void * o
   switch(len & 15) {
     case 15:
       k2 ^= ((uint64_t)tail[14]) << 48;
-      break;
+      /* FALLTHRU */
     case 14:
       k2 ^= ((uint64_t)tail[13]) << 40;
-      break;
+      /* FALLTHRU */
     case 13:
       k2 ^= ((uint64_t)tail[12]) << 32;
-      break;
+      /* FALLTHRU */
     case 12:
       k2 ^= ((uint64_t)tail[11]) << 24;
-      break;
+      /* FALLTHRU */
     case 11:
       k2 ^= ((uint64_t)tail[10]) << 16;
-      break;
+      /* FALLTHRU */
     case 10:
       k2 ^= ((uint64_t)tail[ 9]) << 8;
-      break;
+      /* FALLTHRU */
     case  9:
       k2 ^= ((uint64_t)tail[ 8]) << 0;
       k2 *= c2;
       k2  = ROTL64(k2,33);
       k2 *= c1;
       h2 ^= k2;
-      break;
+      /* FALLTHRU */
     case  8:
       k1 ^= ((uint64_t)tail[ 7]) << 56;
-      break;
+      /* FALLTHRU */
     case  7:
       k1 ^= ((uint64_t)tail[ 6]) << 48;
-      break;
+      /* FALLTHRU */
     case  6:
       k1 ^= ((uint64_t)tail[ 5]) << 40;
-      break;
+      /* FALLTHRU */
     case  5:
       k1 ^= ((uint64_t)tail[ 4]) << 32;
-      break;
+      /* FALLTHRU */
     case  4:
       k1 ^= ((uint64_t)tail[ 3]) << 24;
-      break;
+      /* FALLTHRU */
     case  3:
       k1 ^= ((uint64_t)tail[ 2]) << 16;
-      break;
+      /* FALLTHRU */
     case  2:
       k1 ^= ((uint64_t)tail[ 1]) << 8;
-      break;
+      /* FALLTHRU */
     case  1:
       k1 ^= ((uint64_t)tail[ 0]) << 0;
       k1 *= c1;
-- 
2.43.0


From 09328d40f292ef8ddda67d4fe052e1b361bf5f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 02/31] fix: MurmurHash3 must not read beyond the number's
 digits

---
 src/libeopsi/murmurhash3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 7e33eb7..1d049f8 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -457,7 +457,7 @@ byte* MurmurHash3::hash(const NTL::ZZ_p n, const size_t len) {
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
-  murmurHash3_x64_128((const void *) zzString.c_str(), 4*truncLen, (void *) this->hash128);
+  murmurHash3_x64_128((const void *) zzString.c_str(), truncLen, (void *) this->hash128);
   return this->hash128;
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From f6075535d4f433a6c2621e717abc1a1b90629ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 03/31] fix: SHA names were computed by pointer arithmetic on a
 literal, and SHA-1 called itself SHA0

---
 src/libeopsi/sha.hpp    | 2 +-
 src/libeopsi/shazzp.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index f2c0fc8..7c7ecc2 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -99,7 +99,7 @@ public:
   }
   
   virtual std::string name() const {
-    return "SHA" + this->flavour;
+    return this->flavour == SHA256_FLAVOUR ? "SHA256" : "SHA1";
   }
 };
 //-----------------------------------------------------------------------------
diff --git a/src/libeopsi/shazzp.cpp b/src/libeopsi/shazzp.cpp
index 5e1915c..b689f34 100644
--- a/src/libeopsi/shazzp.cpp
+++ b/src/libeopsi/shazzp.cpp
@@ -31,7 +31,7 @@ byte* SHAZZp::hash(NTL::ZZ_p n, const size_t len) {
 
 std::string SHAZZp::name() const {
   std::ostringstream sstr;
-  sstr << "SHA" << (this->flavour) << " for integers modulo p";
+  sstr << SHA<NTL::ZZ_p>::name() << " for integers modulo p";
   return sstr.str();
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From d03f84f00b3cd74cd6b10323830798bf0eb7b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 04/31] fix: the hash table's size() always returned zero

---
 src/libeopsi/hashbuckets.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 2acac0a..d31825a 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -141,6 +141,7 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
 //     if (index == 0)
 //     std::cerr << "HashBuckets<T>::add()" << ". Index of " << element << " is " << index << "." << std::endl; // Debug purposes
     this->buckets[index].push_back(element);
+    this->n++;
 }
 //-----------------------------------------------------------------------------
 
@@ -148,6 +149,7 @@ template <typename T> void HashBuckets<T>::addToBucket(const T& element, const s
   size_t index = i;
   if (index < this->k) {
     this->buckets[index].push_back(element);
+    this->n++;
   } else {
     throw OutOfBoundException("HashBuckets<T>::addToBucket(). Index out of bound.", OutOfBoundException::FATAL);
   }
-- 
2.43.0


From ff41b8ca9350d40e627fcecd0e3d8ec70c9b350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 05/31] fix: addToBucket() and add() without a hash algorithm
 ignored the buckets' capacity

---
 src/libeopsi/hashbuckets.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index d31825a..ec46d3f 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -127,12 +127,6 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     this->hashStrInt->set(this->hashAlgorithm->hash(element), this->hashAlgorithm->hashSize());
     index = this->hashStrInt->rem(this->k);
 //     std::cerr << element << " hashed to "<< *this->hashStrInt << " mod " << this->k << " = " << index << std::endl;
-    
-    if (this->buckets[index].size() == this->maxLoad) {
-      std::stringstream msg;
-      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
-      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
-    }
   } else {
     index = 0;
     std::cerr << "HashBuckets<T>::add()" << ". Element index completely invented (you did not set a hash algorithm)." << std::endl;
@@ -140,14 +134,18 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     
 //     if (index == 0)
 //     std::cerr << "HashBuckets<T>::add()" << ". Index of " << element << " is " << index << "." << std::endl; // Debug purposes
-    this->buckets[index].push_back(element);
-    this->n++;
+  this->addToBucket(element, index);
 }
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::addToBucket(const T& element, const size_t i) {
   size_t index = i;
   if (index < this->k) {
+    if (this->buckets[index].size() == this->maxLoad) {
+      std::stringstream msg;
+      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
+      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
+    }
     this->buckets[index].push_back(element);
     this->n++;
   } else {
-- 
2.43.0


From b27a8778b357babfc6be53dc497526be4634d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 06/31] fix: the halves of a finished run were deleted but
 kept, and a helper overwrote its own pending half

---
 src/libeopsi/eopsiclient.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 8ab2795..bc99d4a 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -71,6 +71,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   size_t dataLen, tmpKeyByteSize, i;
   std::map<std::string, EOPSIParty*>::const_iterator mi;
   NTL::vec_ZZ_p setcap;
+  NTL::vec_ZZ_p *partnerQ;
   
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EO-PSI protocol");
@@ -161,8 +162,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       /*
        * 2. Send q to client
        */
-      q = delegationOutput(otherSecret, tmpKey);
-      msgToClient.setData((void *) q, 1);
+      partnerQ = delegationOutput(otherSecret, tmpKey);
+      msgToClient.setData((void *) partnerQ, 1);
       msgToClient.setType(EOPSI_MESSAGE_POLYNOMIAL);
       msgToClient.setPartyId(this->getId());
       
@@ -183,6 +184,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = nullptr;
+        q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_OUTPUT_COMPUTATION << ". Receiving partial intersection data \"t\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       
@@ -199,6 +202,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = nullptr;
+        q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_POLYNOMIAL << ". Receiving partial intersection data \"q\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       break;
-- 
2.43.0


From 38fd44cfb87268d9f20959420f5cca3468cd3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 07/31] fix: a helper must use the requester's whole secret,
 not its first three bytes

---
 src/libeopsi/eopsiclient.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index bc99d4a..af298de 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -90,10 +90,13 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       bm.start();
       
       // Check sender and message content
-      msgClaimedId = (char *) msg->getData();
+      msgClaimedId = std::string((char *) msg->getData(), strnlen((char *) msg->getData(), msg->length()));
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
+      if (msg->length() < msgClaimedId.length() + 2) {
+        throw ProtocolException("No secret in the message data");
+      }
       
       /*
        * 1. Send outsourcing request to the cloud
@@ -145,7 +148,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       
       // Reception feedback
       otherSecretBytes = &((byte *) msg->getData())[msgClaimedId.length() + 1];
-      otherSecret = NTL::ZZFromBytes(otherSecretBytes, 3);
+      otherSecret = NTL::ZZFromBytes(otherSecretBytes, msg->length() - msgClaimedId.length() - 2); // all but the id and the two ending characters
       std::cout << id << ". Received \"" << otherSecret << "\" from " << sender->getId() << "." << std::endl;
       
       // Send the message to cloud
-- 
2.43.0


From e6fcc52a036aa7087374bba2a74c805783fef2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 08/31] fix: zero, all of whose bits are zero, was never found
 in an intersection

---
 src/libeopsi/zzppoly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index f0100a2..af57719 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -149,7 +149,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection() {
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
@@ -224,7 +224,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
-- 
2.43.0


From c95472631f24943efbfb6ebef6e0b2dfe35106e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 09/31] fix: a message from an unknown party, or no message at
 all, crashed the receiver instead of being refused

---
 src/libeopsi/eopsiclient.cpp | 6 +++++-
 src/libeopsi/eopsiserver.cpp | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index af298de..6afda98 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -73,6 +73,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   NTL::vec_ZZ_p setcap;
   NTL::vec_ZZ_p *partnerQ;
   
+  if (msg == nullptr) {
+    throw ProtocolException("Null message received by " + this->getId() + ".");
+  }
+  
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EO-PSI protocol");
   }
@@ -230,7 +234,7 @@ bool EOPSIClient::isAuthorised(const EOPSIMessage *msg) const {
   }
   
   sender = getPartyById(msg->getPartyId());
-  if (!hasAuthenticated(*sender)) {
+  if (sender == nullptr || !hasAuthenticated(*sender)) {
     return false;
   }
   
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 3ff7d0a..b9ae32e 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -28,6 +28,10 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
   byte *tmpKeyBytes;
   NTL::vec_ZZ_p *t;
   
+  if (msg == nullptr) {
+    throw ProtocolException("Null message received by " + this->getId() + ".");
+  }
+  
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EOPSI protocol");
   }
-- 
2.43.0


From 3db45c61b2d32bdeee9705363869a802aa8e16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 10/31] fix: requests for unknown partners or missing data, and
 messages without payload, crashed instead of being refused

---
 src/libeopsi/eopsiclient.cpp |  9 +++++++++
 src/libeopsi/eopsiserver.cpp | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 6afda98..58decd1 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -94,6 +94,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       bm.start();
       
       // Check sender and message content
+      if (msg->getData() == nullptr) {
+        throw ProtocolException("No data in the computation request");
+      }
       msgClaimedId = std::string((char *) msg->getData(), strnlen((char *) msg->getData(), msg->length()));
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
@@ -181,6 +184,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       break;
       
     case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
+      if (msg->getData() == nullptr) {
+        throw ProtocolException("No data in the partial intersection");
+      }
       bm.start();
       t = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
@@ -199,6 +205,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       break;
       
     case EOPSI_MESSAGE_POLYNOMIAL:
+      if (msg->getData() == nullptr) {
+        throw ProtocolException("No data in the partial intersection");
+      }
       bm.start();
       q = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index b9ae32e..9f69582 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -52,11 +52,20 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       }
       
       // Check sender and message content
+      if (msg->getData() == nullptr) {
+        throw ProtocolException("No data in the cloud computation request");
+      }
       msgClaimedId = (char *) msg->getData();
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
       partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
+      if (!hasAuthenticated(partnerId)) {
+        throw ProtocolException("Party \"" + partnerId + "\" is not authorised by " + this->getId() + ".");
+      }
+      if (storedData.find(sender->getId()) == storedData.end() || storedData.find(partnerId) == storedData.end()) {
+        throw ProtocolException("The data of both parties must be outsourced before the computation");
+      }
       
       // Prepare message for the partner client
       tmpKeyBytes = (&((byte *) msg->getData())[msgClaimedId.length() + 1 + partnerId.length() + 1]);
@@ -80,6 +89,9 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       if (sender->getType() == EOPSI_PARTY_SERVER) {
         throw ProtocolException("Outsourcing data between servers is not (yet) supported");
       }
+      if (msg->getData() == nullptr) {
+        throw ProtocolException("No data to store");
+      }
       this->storedData[sender->getId()] = msg;
       std::cout << id << ". Data from " << sender->getId() << " stored (size " << msg->length() << ")." << std::endl;
       
-- 
2.43.0


From cce030eba4c5a8a50d253d95ad05f4f1128d963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 11/31] fix: the cloud kept a pointer to the client's message
 instead of what it said

---
 src/libeopsi/eopsiserver.cpp | 9 +++------
 src/libeopsi/eopsiserver.h   | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 9f69582..8b9b09d 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -92,7 +92,7 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       if (msg->getData() == nullptr) {
         throw ProtocolException("No data to store");
       }
-      this->storedData[sender->getId()] = msg;
+      this->storedData[sender->getId()] = *msg; // the message may not outlive this call
       std::cout << id << ". Data from " << sender->getId() << " stored (size " << msg->length() << ")." << std::endl;
       
       // [[TODO: REM debug]]
@@ -150,15 +150,12 @@ bool EOPSIServer::isAuthorised(const EOPSIMessage* msg) const {
 NTL::vec_ZZ_p * EOPSIServer::intersectionOutput(const std::string idA, const std::string idB, const NTL::ZZ tmpKey) {
   NTL::ZZ_p tmp;
   NTL::ZZ_pX omegaA, omegaB;
-  EOPSIMessage *msgA, *msgB;
   NTL::vec_ZZ_p* dataA = nullptr;
   NTL::vec_ZZ_p* dataB = nullptr;
   NTL::ZZ zzTmpKey;
   
-  msgA = this->storedData[idA];
-  msgB = this->storedData[idB];
-  dataA = (NTL::vec_ZZ_p *) msgA->getData();
-  dataB = (NTL::vec_ZZ_p *) msgB->getData();
+  dataA = (NTL::vec_ZZ_p *) this->storedData[idA].getData();
+  dataB = (NTL::vec_ZZ_p *) this->storedData[idB].getData();
   
   return computeTOrQ(tmpKey, dataA, dataB);
 }
diff --git a/src/libeopsi/eopsiserver.h b/src/libeopsi/eopsiserver.h
index 7a55f9f..4cbbc65 100644
--- a/src/libeopsi/eopsiserver.h
+++ b/src/libeopsi/eopsiserver.h
@@ -18,7 +18,7 @@ class EOPSIClient;
 
 class EOPSIServer : public EOPSIParty {
 protected:
-  std::map<std::string, EOPSIMessage*> storedData;
+  std::map<std::string, EOPSIMessage> storedData;
   EOPSIMessage msgToClient;
   
   virtual NTL::vec_ZZ_p * intersectionOutput(const std::string id, const std::string idOther, const NTL::ZZ tmpKey);
-- 
2.43.0


From ef132dc1dd75918260fccd9ad278f148b9ac5e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 12/31] fix: a byte-string integer counted bits as bytes and
 could not be exported to a new or a larger block

---
 src/libeopsi/strint.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index e3c2761..22e0854 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -140,7 +140,7 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
   const int BIG_ENDIANNESS = 1;
   const size_t LEN = this->getByteSize();
   
-  if ((barr != NULL) && (bytelen != NULL) && (*bytelen != LEN)) {
+  if ((barr == NULL) || (*bytelen < LEN)) {
     try {
       barr = new byte[LEN];
     } catch (std::bad_alloc&) {
@@ -152,8 +152,7 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
   
   /*
    * If this->z is zero then the count returned will be zero and nothing 
-   * written to barr. If barr is NULL in this case, no block is allocated, 
-   * just NULL is returned. 
+   * written to barr.
    */
   if (*bytelen == 0 && LEN == 1) {
     barr[0] = '\0';
@@ -170,7 +169,7 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
 //-----------------------------------------------------------------------------
 
 size_t StrInt::getByteSize() const {
-  return (mpz_sizeinbase(this->z, 2) + sizeof(byte) - 1)/sizeof(byte);
+  return (mpz_sizeinbase(this->z, 2) + 8*sizeof(byte) - 1)/(8*sizeof(byte));
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From e9ddecd25e103f5ef7319bbff5b8fd08e22a1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 13/31] fix: the least significant word was taken from the work
 array, modulo one less than the word size

---
 src/libeopsi/strint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index 22e0854..0e4a1f6 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -113,7 +113,7 @@ unsigned long StrInt::rem(const unsigned long divisor) const {
 //-----------------------------------------------------------------------------
 
 unsigned long StrInt::lsb() const {
-  return mpz_fdiv_ui(b[0], (unsigned long) (-1L));
+  return mpz_get_ui(z);
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From a827d944c3a547597e3e59bab55507505ec8d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 14/31] fix: setting a byte-string integer to no bytes kept a
 stale part of the previous number

---
 src/libeopsi/strint.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index 0e4a1f6..a47d7f0 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -102,8 +102,12 @@ void StrInt::set(const byte *n, const size_t len) {
     }
   }
   
-  // Save to z
-  mpz_set(z, b[0]);
+  // Save to z (no bytes are the number zero)
+  if (dim > 0) {
+    mpz_set(z, b[0]);
+  } else {
+    mpz_set_ui(z, 0);
+  }
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 58b3c944d77976a6c2b6e2781807fecc4a833310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 15/31] fix: one ZZpPolynomials object could not be reused for
 staged and one-shot batches

---
 src/libeopsi/zzppoly.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index af57719..36a25b6 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -69,6 +69,12 @@ void ZZpPolynomials::interpolate(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y, const size_
         delete [] this->polynomials;
       }
       
+      // Any previous factorisation is of other polynomials
+      if (this->factorPairs != nullptr) {
+        delete [] this->factorPairs;
+        this->factorPairs = nullptr;
+      }
+      
       this->polynomials = new NTL::ZZ_pX[n];
     } catch (std::bad_alloc &) {
       std::cerr << "interpolate(). Error allocating memory." << std::endl;
@@ -178,7 +184,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
       break;
   }
   
-  if (this->n != n) {
+  if (this->n != n || this->factorPairs == nullptr) {
     try {
       if (this->polynomials != nullptr) {
         delete [] this->polynomials;
-- 
2.43.0


From 61d7557df05ed8f29dfef9d70cee29e110f609c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 16/31] fix: the chronometer's statistics over all intervals,
 of nothing but pauses, and of a single time were wrong

---
 src/libeopsi/simplebm.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index 370c493..22e2de1 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -83,7 +83,7 @@ std::chrono::microseconds SimpleBenchmark::minOrMax(const bool giveMax, const bo
   
   min = max = currentInterval = ZEROMS;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "minOrMax(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -209,7 +209,7 @@ bool SimpleBenchmark::isStopped() const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::benchmark(const size_t cursor) const {
-  if (cursor >= this->times.size()) {
+  if (cursor >= this->times.size() || this->times.size() < 2) {
     return SimpleBenchmark::ZEROMS;
   }
   
@@ -252,14 +252,14 @@ std::chrono::microseconds SimpleBenchmark::cumulativeBenchmark(const std::string
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::average(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "average(). Not enough points to average." << std::endl;
     return 0.;
   }
   if (noPauses) {
-    return this->cumulativeBenchmark(false).count() / (double) this->countNotPausedTimes(1, this->times.size());
+    return this->cumulativeBenchmark((size_t) 0, true).count() / (double) this->countNotPausedTimes(1, this->times.size());
   } else {
-    return this->cumulativeBenchmark().count() / (double) (this->times.size() - 1);
+    return this->cumulativeBenchmark((size_t) 0, false).count() / (double) (this->times.size() - 1);
   }
 }
 //-----------------------------------------------------------------------------
@@ -269,16 +269,16 @@ double SimpleBenchmark::variance(const bool noPauses) const {
   size_t n;
   unsigned long x;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "variance(). Not enough points to compute variance." << std::endl;
     return 0.;
   }
   
   avg = this->average(noPauses);
-  n = this->times.size() - 1;
+  n = noPauses ? this->countNotPausedTimes(1, this->times.size()) : this->times.size() - 1;
   var = 0.;
   for (size_t i = 1; i < this->times.size(); i++) {
-    if (noPauses && !this->pauses[i]) {
+    if (!noPauses || !this->pauses[i]) {
       x = std::chrono::duration_cast<std::chrono::microseconds>(this->times[i] - this->times[i - 1]).count();
       diff = x > avg ? x - avg : avg - x;
       var += diff/n*diff;
@@ -290,7 +290,7 @@ double SimpleBenchmark::variance(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::standardDeviation(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "standardDeviation(). Not enough points to compute standard deviation." << std::endl;
     return 0.;
   }
@@ -300,7 +300,7 @@ double SimpleBenchmark::standardDeviation(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "max(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -310,7 +310,7 @@ std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::min(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "min(). No intervals taken." << std::endl;
     return ZEROMS;
   }
-- 
2.43.0


From 2db0ba35b1bac7c6f99b82017a2f7276a09b414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 17/31] fix: a generator built from another one shared, and
 released twice, its buffers

---
 src/libeopsi/sha.hpp   | 16 ++++++++++++++++
 src/libeopsi/zzprf.cpp | 15 +++++++++++++++
 src/libeopsi/zzprf.h   |  2 ++
 3 files changed, 33 insertions(+)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index 7c7ecc2..501ce97 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -78,6 +78,22 @@ public:
     this->setFlavour(flavour);
   }
   
+  /**
+   * A copy has its own transformation and its own cache.
+   */
+  SHA(const SHA& other) : HashAlgorithm<T>(other) {
+    this->sha = nullptr;
+    this->lastHash = nullptr;
+    this->setFlavour(other.flavour);
+  }
+  
+  SHA& operator=(const SHA& other) {
+    if (this != &other) {
+      this->setFlavour(other.flavour);
+    }
+    return *this;
+  }
+  
   ~SHA() {
     if (this->sha != nullptr) {
       delete this->sha;
diff --git a/src/libeopsi/zzprf.cpp b/src/libeopsi/zzprf.cpp
index a87346c..10278d7 100644
--- a/src/libeopsi/zzprf.cpp
+++ b/src/libeopsi/zzprf.cpp
@@ -19,6 +19,21 @@ ZZPRF::ZZPRF() : PseudoRandom() {
 }
 //-----------------------------------------------------------------------------
 
+// A copy has its own work buffers
+ZZPRF::ZZPRF(const ZZPRF& other) : PseudoRandom(other) {
+  hashInputSize = 0;
+  genLength = 0;
+  gen = nullptr;
+  hashInput = nullptr;
+}
+//-----------------------------------------------------------------------------
+
+ZZPRF& ZZPRF::operator=(const ZZPRF& other) {
+  PseudoRandom::operator=(other);
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 ZZPRF::~ZZPRF() {
   if (gen != nullptr) {
     delete [] gen;
diff --git a/src/libeopsi/zzprf.h b/src/libeopsi/zzprf.h
index 46629cb..30a7e3e 100644
--- a/src/libeopsi/zzprf.h
+++ b/src/libeopsi/zzprf.h
@@ -32,6 +32,8 @@ protected:
   
 public:
   ZZPRF();
+  ZZPRF(const ZZPRF& other);
+  ZZPRF& operator=(const ZZPRF& other);
   virtual ~ZZPRF();
   
   virtual NTL::ZZ generate(const NTL::ZZ seed, const size_t index, const size_t bits = 0);
-- 
2.43.0


From 5be34251d4e1743fd6d72f000c35373b30c16c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 18/31] fix: the hash table's variance was computed from
 deviations truncated to whole numbers

---
 src/libeopsi/hashbuckets.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index ec46d3f..ad0cdc8 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -182,8 +182,8 @@ template <typename T> size_t HashBuckets<T>::getMaxLoad() const {
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::printStats(bool full) const {
-  size_t minSize, minBucket, maxSize, maxBucket, total, diff, nshow;
-  double avgSize, varSize;
+  size_t minSize, minBucket, maxSize, maxBucket, total, nshow;
+  double avgSize, varSize, diff;
   
   // Integer stuff
   total = minSize = maxSize = this->buckets[0].size();
-- 
2.43.0


From 74a218cbbfed6192858ce805af490a2d313c636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 19/31] fix: blocks() and bytes() overflowed for the largest
 bit lengths and block sizes

---
 src/libeopsi/ntlmiss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/ntlmiss.cpp b/src/libeopsi/ntlmiss.cpp
index 80a29ce..28f7bbd 100644
--- a/src/libeopsi/ntlmiss.cpp
+++ b/src/libeopsi/ntlmiss.cpp
@@ -26,7 +26,7 @@ namespace NTL {
   //---------------------------------------------------------------------------
 
   unsigned long blocks(const unsigned long bits, const unsigned long bitsPerBlock) {
-    return (bits + bitsPerBlock - 1)/bitsPerBlock;
+    return bits/bitsPerBlock + (bits % bitsPerBlock != 0 ? 1 : 0);
   }
   //---------------------------------------------------------------------------
 
-- 
2.43.0


From f24760d5ec99c49175f395164db75f0c4622ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 20/31] fix: halves left by a run that broke off while
 intersecting spoilt the next run

---
 src/libeopsi/eopsiclient.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 58decd1..60d14e6 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -89,6 +89,14 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   // Get the sender
   sender = getPartyById(msg->getPartyId());
   
+  // Both halves are still here only if finding their intersection broke off (out of memory): they must not mix with those of a new run
+  if (this->t != nullptr && this->q != nullptr) {
+    delete [] this->t;
+    delete [] this->q;
+    this->t = nullptr;
+    this->q = nullptr;
+  }
+  
   switch(msg->getType()) {
     case EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST:
       bm.start();
-- 
2.43.0


From 65306eca75367b55b88b72b87f7f50e97c13cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 21/31] fix: a digest of truncated digits was given silently
 when out of memory

---
 src/libeopsi/murmurhash3.cpp | 5 +++++
 src/libeopsi/shazzp.cpp      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 1d049f8..51d296b 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -13,6 +13,7 @@
 
 #include <string>
 #include <cstring>
+#include <new>
 #include "murmurhash3.h"
 
 //-----------------------------------------------------------------------------
@@ -452,8 +453,12 @@ size_t MurmurHash3::hashSize() const {
 byte* MurmurHash3::hash(const NTL::ZZ_p n, const size_t len) {
   size_t truncLen;
   
+  zzStreamString.clear();
   zzStreamString.str(std::string()); // Clear stream string
   zzStreamString << n;
+  if (!zzStreamString) { // streams keep to themselves that memory is over
+    throw std::bad_alloc();
+  }
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
diff --git a/src/libeopsi/shazzp.cpp b/src/libeopsi/shazzp.cpp
index b689f34..9cc1a77 100644
--- a/src/libeopsi/shazzp.cpp
+++ b/src/libeopsi/shazzp.cpp
@@ -4,6 +4,7 @@
  * Copyright (C) 2015  Roberto Metere, Glasgow <roberto.metere@strath.ac.uk>
  */
 
+#include <new>
 #include "shazzp.h"
 //-----------------------------------------------------------------------------
 
@@ -19,8 +20,12 @@ SHAZZp::~SHAZZp() {
 
 byte* SHAZZp::hash(NTL::ZZ_p n, const size_t len) {
   size_t truncLen;
+  zzStreamString.clear();
   zzStreamString.str(std::string()); // Clear stream string
   zzStreamString << n;
+  if (!zzStreamString) { // streams keep to themselves that memory is over
+    throw std::bad_alloc();
+  }
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
-- 
2.43.0


From c360a34dbfa8c22ec41feeb4504d5cce144e3952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 22/31] fix: a byte-string integer's text was silently cut
 short when out of memory

---
 src/libeopsi/strint.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index a47d7f0..79a3f90 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -5,6 +5,7 @@
  */
 
 #include <iostream>
+#include <new>
 #include <sstream>
 #include "strint.h"
 //-----------------------------------------------------------------------------
@@ -135,6 +136,9 @@ void StrInt::add(const unsigned long n) {
 std::string StrInt::toString() const {
   std::stringstream sstr;
   sstr << this->z;
+  if (!sstr) { // streams keep to themselves that memory is over
+    throw std::bad_alloc();
+  }
   return sstr.str();
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 8a465d7e91a6e4bd3d767f2bb45b2967276a47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 23/31] fix: readableDigest() went on with an uninitialised
 pointer when out of memory

---
 src/libeopsi/hashalgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopsi/hashalgorithm.hpp b/src/libeopsi/hashalgorithm.hpp
index ef8df6b..60f0754 100644
--- a/src/libeopsi/hashalgorithm.hpp
+++ b/src/libeopsi/hashalgorithm.hpp
@@ -52,6 +52,7 @@ public:
       stringSink = new CryptoPP::StringSink(output);
     } catch(std::bad_alloc&) {
       std::cerr << "readableHash(). Unable to allocate memory." << std::endl;
+      throw;
     }
     
     encoder.Attach(stringSink);
-- 
2.43.0


From 69f2ac6392edc7e4fc74004142752a1ee69b9755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 24/31] fix: data that does not fit the declared width or the
 field was silently answered wrongly

---
 src/libeopsi/eopsiclient.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 60d14e6..f1bb0e6 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -275,6 +275,15 @@ void EOPSIClient::setRawData(NTL::ZZ *rawData, const size_t size, const size_t d
   if (rawData == nullptr || size == 0) {
     std::cerr << "setRawData(). WARNING: Empty data to store; nothing to do" << std::endl;
   } else {
+    if (dataBits >= this->fieldbitsize - 1) {
+      throw ProtocolException("The declared bit width of the data leaves no room for padding in the field");
+    }
+    for (size_t i = 0; i < size; i++) {
+      if ((size_t) NTL::NumBits(rawData[i]) > dataBits) {
+        throw ProtocolException("An element of the data is wider than declared");
+      }
+    }
+    
     this->rawData = rawData;
     this->rawDataSize = size;
     this->rawDataBits = dataBits;
-- 
2.43.0


From e4134db8b6f6a6c4e1839a24c99e55114b0ddcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:27 +0000
Subject: [PATCH 25/31] fix: a truncated cloud computation request was read
 beyond its end

---
 src/libeopsi/eopsiserver.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 8b9b09d..47d4cde 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -5,6 +5,7 @@
  * Copyright (C) 2016  Roberto Metere, Glasgow <roberto.metere@strath.ac.uk>
  */
 
+#include <cstring>
 #include <iostream>
 #include <NTL/ZZ_pX.h>
 #include "eopsiserver.h"
@@ -55,11 +56,14 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       if (msg->getData() == nullptr) {
         throw ProtocolException("No data in the cloud computation request");
       }
-      msgClaimedId = (char *) msg->getData();
+      msgClaimedId = std::string((char *) msg->getData(), strnlen((char *) msg->getData(), msg->length()));
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
-      partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
+      if (msg->length() < msgClaimedId.length() + 2) {
+        throw ProtocolException("No partner in the message data");
+      }
+      partnerId = std::string(&((char *) msg->getData())[msgClaimedId.length() + 1], strnlen(&((char *) msg->getData())[msgClaimedId.length() + 1], msg->length() - msgClaimedId.length() - 1));
       if (!hasAuthenticated(partnerId)) {
         throw ProtocolException("Party \"" + partnerId + "\" is not authorised by " + this->getId() + ".");
       }
@@ -67,6 +71,10 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
         throw ProtocolException("The data of both parties must be outsourced before the computation");
       }
       
+      if (msg->length() < msgClaimedId.length() + partnerId.length() + 2 + NTL::bytes(DEFAULT_KEY_BITSIZE)) {
+        throw ProtocolException("No key in the message data");
+      }
+      
       // Prepare message for the partner client
       tmpKeyBytes = (&((byte *) msg->getData())[msgClaimedId.length() + 1 + partnerId.length() + 1]);
       tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE));
-- 
2.43.0


From c3fecfb9579b4f8fb5f8f978f49cdfb1e2f287ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 26/31] fix: a table given another algorithm never released its
 old conversion buffer

---
 src/libeopsi/hashbuckets.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index ad0cdc8..8300a07 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -111,7 +111,9 @@ template <typename T> void HashBuckets<T>::setHashAlgorithm(const HashAlgorithm<
   }
   
   try {
-    hashStrInt = new StrInt(hashAlgorithm->hashSize());
+    StrInt *replacement = new StrInt(hashAlgorithm->hashSize());
+    delete hashStrInt;
+    hashStrInt = replacement;
   } catch (std::bad_alloc&) {
     std::cerr << "setHashAlgorithm(). Fatal error allocating space." << std::endl;
     exit(2);
-- 
2.43.0


From 24f00d63239adedecaa49a8898aedb84f60e64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 27/31] fix: refuse negative elements, which would silently be
 lost

---
 src/libeopsi/eopsiclient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index f1bb0e6..af9f754 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -282,6 +282,9 @@ void EOPSIClient::setRawData(NTL::ZZ *rawData, const size_t size, const size_t d
       if ((size_t) NTL::NumBits(rawData[i]) > dataBits) {
         throw ProtocolException("An element of the data is wider than declared");
       }
+      if (NTL::sign(rawData[i]) < 0) {
+        throw ProtocolException("An element of the data is negative");
+      }
     }
     
     this->rawData = rawData;
-- 
2.43.0


From 4e06a8692a751b801a26b925fbfd7f051333d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 28/31] fix: refuse data when the hash table or the degree does
 not fit the protocol, instead of losing elements

---
 src/libeopsi/eopsiclient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index af9f754..5a4f557 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -278,6 +278,9 @@ void EOPSIClient::setRawData(NTL::ZZ *rawData, const size_t size, const size_t d
     if (dataBits >= this->fieldbitsize - 1) {
       throw ProtocolException("The declared bit width of the data leaves no room for padding in the field");
     }
+    if (hashBuckets != nullptr && (hashBuckets->getLength() != this->length || this->degree <= this->height + hashBuckets->getMaxLoad())) {
+      throw ProtocolException("The hash table does not fit the length and the degree of the protocol");
+    }
     for (size_t i = 0; i < size; i++) {
       if ((size_t) NTL::NumBits(rawData[i]) > dataBits) {
         throw ProtocolException("An element of the data is wider than declared");
-- 
2.43.0


From 92334abe6f8ec2c0c3a376e66b4f8b37cbcacf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:05 +0000
Subject: [PATCH 29/31] fix: the cloud refuses outsourced data of another size
 than that of its own tables

---
 src/libeopsi/eopsiserver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 47d4cde..75a80cd 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -100,6 +100,9 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       if (msg->getData() == nullptr) {
         throw ProtocolException("No data to store");
       }
+      if (msg->length() != this->degree*this->length) {
+        throw ProtocolException("The size of the data to store does not fit");
+      }
       this->storedData[sender->getId()] = *msg; // the message may not outlive this call
       std::cout << id << ". Data from " << sender->getId() << " stored (size " << msg->length() << ")." << std::endl;
       
-- 
2.43.0


From 98fc4bbc51547b75a19213184d5558c744e21c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 30/31] fix: sending a message rethrows the addressee's error
 itself, not a copy cut to its base class

---
 src/libeopsi/eopsiparty.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiparty.cpp b/src/libeopsi/eopsiparty.cpp
index 5087248..558cb3f 100644
--- a/src/libeopsi/eopsiparty.cpp
+++ b/src/libeopsi/eopsiparty.cpp
@@ -182,8 +182,8 @@ void EOPSIParty::send(EOPSIParty& party, EOPSIMessage* msg) {
   
   try {
     party.receive(msg);
-  } catch (ProtocolException& e) {
-    throw e;
+  } catch (ProtocolException&) {
+    throw;
   }
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From e71196c9f70633d45dfc5090b25657dc97b7d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:51 +0000
Subject: [PATCH 31/31] fix: parties can be sent messages while they send their
 own: each receive() has messages of its own

---
 src/libeopsi/eopsiclient.cpp | 1 +
 src/libeopsi/eopsiclient.h   | 1 -
 src/libeopsi/eopsiserver.cpp | 1 +
 src/libeopsi/eopsiserver.h   | 1 -
 4 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 5a4f557..d81c6e0 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -62,6 +62,7 @@ EOPSIClient::~EOPSIClient() {
 
 void EOPSIClient::receive(EOPSIMessage* msg) {
   EOPSIParty *sender, *cloud;
+  EOPSIMessage msgToCloud, msgToClient; // receive() may be entered again while they are being sent
   std::string msgClaimedId;
   NTL::ZZ otherSecret;
   byte *otherSecretBytes;
diff --git a/src/libeopsi/eopsiclient.h b/src/libeopsi/eopsiclient.h
index e974a1d..edc4758 100644
--- a/src/libeopsi/eopsiclient.h
+++ b/src/libeopsi/eopsiclient.h
@@ -29,7 +29,6 @@ protected:
   HashBuckets<NTL::ZZ_p> *hashBuckets;
   NTL::vec_ZZ_p *q, *t;
   ZZpPRF *zzpprf;
-  EOPSIMessage msgToCloud, msgToClient;
   NTL::vec_ZZ setcap;
   
   virtual size_t padSize() const;
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 75a80cd..6ccc690 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -23,6 +23,7 @@ EOPSIServer::~EOPSIServer() {
 
 void EOPSIServer::receive(EOPSIMessage* msg) {
   EOPSIParty *sender;
+  EOPSIMessage msgToClient; // receive() may be entered again while it is being sent
   std::string msgClaimedId;
   std::string partnerId;
   NTL::ZZ tmpKey;
diff --git a/src/libeopsi/eopsiserver.h b/src/libeopsi/eopsiserver.h
index 4cbbc65..da6004f 100644
--- a/src/libeopsi/eopsiserver.h
+++ b/src/libeopsi/eopsiserver.h
@@ -19,7 +19,6 @@ class EOPSIClient;
 class EOPSIServer : public EOPSIParty {
 protected:
   std::map<std::string, EOPSIMessage> storedData;
-  EOPSIMessage msgToClient;
   
   virtual NTL::vec_ZZ_p * intersectionOutput(const std::string id, const std::string idOther, const NTL::ZZ tmpKey);
   
-- 
2.43.0


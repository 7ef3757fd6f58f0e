From e713777645322d06cc0d8b9fdb3435c3ca2cda41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 01/53] fix: AsyncBuffer destructor must not rethrow a failed
 generation

---
 fbpcf/engine/util/AsyncBuffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fbpcf/engine/util/AsyncBuffer.h b/fbpcf/engine/util/AsyncBuffer.h
index b8927f8..2d9f18e 100644
--- a/fbpcf/engine/util/AsyncBuffer.h
+++ b/fbpcf/engine/util/AsyncBuffer.h
@@ -31,7 +31,11 @@ class AsyncBuffer {
   }
 
   ~AsyncBuffer() {
-    futureBuffer_.get();
+    // a failed generation must not escape from the destructor, and the future
+    // is no longer valid once getData() has reported such a failure
+    if (futureBuffer_.valid()) {
+      futureBuffer_.wait();
+    }
   }
 
   std::vector<T> getData(uint64_t size) {
-- 
2.43.0


From 525a32c7e8374041a5024bf25593f8ad41dc7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 02/53] fix: terminate the received curve point string before
 parsing it

---
 .../oblivious_transfer/NpBaseObliviousTransfer.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
index e08b6db..1954a08 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
@@ -76,7 +76,7 @@ NpBaseObliviousTransfer::PointPointer NpBaseObliviousTransfer::receivePoint()
   size_t size = agent_->receiveSingleT<size_t>();
   auto tmp = agent_->receiveT<char>(size);
   tmp.resize(size + 1);
-  tmp[size] = ('\n');
+  tmp[size] = '\0';
   // Create a CTX variable. CTX variables are used as temporary variable for
   // many Openssl functions.
   std::unique_ptr<BN_CTX, std::function<void(BN_CTX*)>> ctx(
-- 
2.43.0


From 00cf94c48c4a2b27ecf57bf55d092a2f37ffc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 03/53] fix: size a joined batch by the operands' declared
 sizes, not their unevaluated values

---
 fbpcf/scheduler/gate_keeper/GateKeeper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
index 9eb12ec..948023f 100644
--- a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
+++ b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
@@ -342,7 +342,7 @@ IScheduler::WireId<IScheduler::Boolean> GateKeeper::batchingUp(
   auto level = getOutputLevel(true, getMaxLevel<true>(src));
   uint32_t batchSize = 0;
   for (auto& item : src) {
-    batchSize += wireKeeper_->getBatchBooleanValue(item).size();
+    batchSize += wireKeeper_->getBatchSize(item);
   }
   auto outputWire = allocateNewWire(std::vector<bool>(), level, batchSize);
   addGate(
-- 
2.43.0


From f70b2229d69936421e11ff3ddb61990eab137560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 04/53] fix: empty batches in the lazy scheduler's shared
 products

---
 fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h |  5 +++++
 fbpcf/scheduler/gate_keeper/BatchCompositeGate.h  | 10 ++++++++++
 fbpcf/scheduler/gate_keeper/BatchNormalGate.h     |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
index f683646..6676ac3 100644
--- a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
@@ -133,6 +133,11 @@ class BatchArithmeticGate final : public IArithmeticGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeMult: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          wireKeeper_.setBatchIntegerValue(wireID_, std::vector<uint64_t>());
+          break;
+        }
         wireKeeper_.setBatchIntegerValue(
             wireID_, engine.getBatchMultExecutionResult(scheduledResultIndex_));
         break;
diff --git a/fbpcf/scheduler/gate_keeper/BatchCompositeGate.h b/fbpcf/scheduler/gate_keeper/BatchCompositeGate.h
index f98edf0..60e5b45 100644
--- a/fbpcf/scheduler/gate_keeper/BatchCompositeGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchCompositeGate.h
@@ -68,6 +68,9 @@ class BatchCompositeGate final : public ICompositeGate {
           rightWireValues[i] = wireKeeper_.getBatchBooleanValue(rights_[i]);
         }
         numberOfResults_ = leftValues.size() * outputWireIDs_.size();
+        if (numberOfResults_ == 0) {
+          break;
+        }
         scheduledResultIndex_ =
             engine.scheduleBatchCompositeAND(leftValues, rightWireValues);
         break;
@@ -81,6 +84,13 @@ class BatchCompositeGate final : public ICompositeGate {
     std::vector<std::vector<bool>> result;
     switch (gateType_) {
       case GateType::NonFreeAnd: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          for (auto& wireID : outputWireIDs_) {
+            wireKeeper_.setBatchBooleanValue(wireID, std::vector<bool>());
+          }
+          break;
+        }
         result =
             engine.getBatchCompositeANDExecutionResult(scheduledResultIndex_);
         for (size_t i = 0; i < result.size(); i++) {
diff --git a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
index f58bbcc..1de25b9 100644
--- a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
@@ -140,6 +140,11 @@ class BatchNormalGate final : public INormalGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeAnd: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          wireKeeper_.setBatchBooleanValue(wireID_, std::vector<bool>());
+          break;
+        }
         wireKeeper_.setBatchBooleanValue(
             wireID_, engine.getBatchANDExecutionResult(scheduledResultIndex_));
         break;
-- 
2.43.0


From 3ce5c91790cf965712adb272be3ebef95d24abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 05/53] fix: results of an exchange made of empty batches only
 keep their shape

---
 fbpcf/engine/SecretShareEngine.cpp | 37 +++++++++++++++++++-----------
 fbpcf/engine/SecretShareEngine.h   |  7 ++++++
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.cpp b/fbpcf/engine/SecretShareEngine.cpp
index a1cdf77..c86d679 100644
--- a/fbpcf/engine/SecretShareEngine.cpp
+++ b/fbpcf/engine/SecretShareEngine.cpp
@@ -484,6 +484,25 @@ SecretShareEngine::getBatchCompositeANDExecutionResult(uint32_t index) const {
   return executionResults_.compositeBatchANDResults.at(index);
 }
 
+SecretShareEngine::ExecutionResults SecretShareEngine::emptyExecutionResults(
+    std::vector<ScheduledBatchAND>& batchAnds,
+    std::vector<ScheduledCompositeAND>& compositeAnds,
+    std::vector<ScheduledBatchCompositeAND>& batchCompositeAnds,
+    std::vector<ScheduledBatchMult>& batchMults) {
+  std::vector<std::vector<std::vector<bool>>> compositeBatchAndResults;
+  compositeBatchAndResults.reserve(batchCompositeAnds.size());
+  for (auto& item : batchCompositeAnds) {
+    compositeBatchAndResults.emplace_back(item.getRights().size());
+  }
+  return {
+      std::vector<bool>(),
+      std::vector<std::vector<bool>>(batchAnds.size()),
+      std::vector<std::vector<bool>>(compositeAnds.size()),
+      std::move(compositeBatchAndResults),
+      std::vector<uint64_t>(),
+      std::vector<std::vector<uint64_t>>(batchMults.size())};
+}
+
 SecretShareEngine::ExecutionResults
 SecretShareEngine::computeAllScheduledOperations(
     std::vector<ScheduledAND>& ands,
@@ -526,13 +545,8 @@ SecretShareEngine::computeAllScheduledOperations(
 
     if (normalTupleCount == 0 && compositeTupleCount.empty() &&
         integerTupleCount == 0) {
-      return {
-          std::vector<bool>(),
-          std::vector<std::vector<bool>>(),
-          std::vector<std::vector<bool>>(),
-          std::vector<std::vector<std::vector<bool>>>(),
-          std::vector<uint64_t>(),
-          std::vector<std::vector<uint64_t>>()};
+      return emptyExecutionResults(
+          batchAnds, compositeAnds, batchCompositeAnds, batchMults);
     }
 
     auto [normalTuples, compositeTuples] =
@@ -592,13 +606,8 @@ SecretShareEngine::computeAllScheduledOperations(
     }
 
     if (normalTupleCount == 0 && integerTupleCount == 0) {
-      return {
-          std::vector<bool>(),
-          std::vector<std::vector<bool>>(),
-          std::vector<std::vector<bool>>(),
-          std::vector<std::vector<std::vector<bool>>>(),
-          std::vector<uint64_t>(),
-          std::vector<std::vector<uint64_t>>()};
+      return emptyExecutionResults(
+          batchAnds, compositeAnds, batchCompositeAnds, batchMults);
     }
 
     auto tuples = tupleGenerator_->getBooleanTuple(normalTupleCount);
diff --git a/fbpcf/engine/SecretShareEngine.h b/fbpcf/engine/SecretShareEngine.h
index 8a02b5c..7297006 100644
--- a/fbpcf/engine/SecretShareEngine.h
+++ b/fbpcf/engine/SecretShareEngine.h
@@ -443,6 +443,13 @@ class SecretShareEngine final : public ISecretShareEngine {
     std::vector<uint64_t> right_;
   };
 
+  // results of scheduled operations that contain no element at all
+  static ExecutionResults emptyExecutionResults(
+      std::vector<ScheduledBatchAND>& batchAnds,
+      std::vector<ScheduledCompositeAND>& compositeAnds,
+      std::vector<ScheduledBatchCompositeAND>& batchCompositeAnds,
+      std::vector<ScheduledBatchMult>& batchMults);
+
   ExecutionResults computeAllScheduledOperations(
       std::vector<ScheduledAND>& ands,
       std::vector<ScheduledBatchAND>& batchAnds,
-- 
2.43.0


From a68e0cf99cb1846b2a10a6488dc836aee644e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 06/53] fix: one-bit integers: do not add the carry out of the
 only bit into it

---
 fbpcf/frontend/Int_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index 5744d01..e07fc58 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -118,8 +118,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator+(
     rst.data_[i] = left ^ other.data_.at(i);
     carry = (left & right) ^ carry;
   }
-  auto left = carry ^ data_[width - 1];
-  rst.data_[width - 1] = left ^ other.data_[width - 1];
+  if constexpr (width > 1) {
+    auto left = carry ^ data_[width - 1];
+    rst.data_[width - 1] = left ^ other.data_[width - 1];
+  }
   return rst;
 }
 
@@ -178,8 +180,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator-(
     rst.data_[i] = data_.at(i) ^ tmp;
     carry = carry ^ ((data_.at(i) ^ other.data_.at(i)) & tmp);
   }
-  rst.data_[width - 1] =
-      carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  if constexpr (width > 1) {
+    rst.data_[width - 1] =
+        carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  }
   return rst;
 }
 
-- 
2.43.0


From 38fb8a63366558e853c5dd87f5ac7410da11f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 07/53] fix: assigning a bit to itself must not release its
 wire

---
 fbpcf/frontend/Bit_impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fbpcf/frontend/Bit_impl.h b/fbpcf/frontend/Bit_impl.h
index a1b57d2..9853bfe 100644
--- a/fbpcf/frontend/Bit_impl.h
+++ b/fbpcf/frontend/Bit_impl.h
@@ -79,9 +79,10 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     const Bit<isSecret, schedulerId, usingBatch>& src) {
+  // src may be this very bit or share its only wire
+  increaseReferenceCount(src.id_);
   decreaseReferenceCount(id_);
   id_ = src.id_;
-  increaseReferenceCount(src.id_);
   return *this;
 }
 
@@ -89,7 +90,9 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     Bit<isSecret, schedulerId, usingBatch>&& src) {
-  moveId(id_, src.id_);
+  if (this != &src) {
+    moveId(id_, src.id_);
+  }
   return *this;
 }
 
-- 
2.43.0


From 7699cbabb34fec482a60966b2a918f43e439913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 08/53] fix: using a value that was never set is an error, not
 an undefined read

---
 fbpcf/scheduler/IScheduler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/scheduler/IScheduler.h b/fbpcf/scheduler/IScheduler.h
index e929a11..b693405 100644
--- a/fbpcf/scheduler/IScheduler.h
+++ b/fbpcf/scheduler/IScheduler.h
@@ -404,7 +404,7 @@ class IScheduler::WireId {
   WireId<T>() = default;
   explicit WireId<T>(uint64_t id) : id_(id) {}
   uint64_t getId() const {
-    return *id_;
+    return id_.value();
   }
 
   WireType getType() const {
-- 
2.43.0


From 26b80fe8ceb7f967bd194d299b2f03ec9e5dd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 09/53] fix: lazy unbatching to more values than the batch has
 is an error, not an out-of-bounds read

---
 fbpcf/scheduler/gate_keeper/RebatchingGate.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/RebatchingGate.h b/fbpcf/scheduler/gate_keeper/RebatchingGate.h
index cbbea7c..b721770 100644
--- a/fbpcf/scheduler/gate_keeper/RebatchingGate.h
+++ b/fbpcf/scheduler/gate_keeper/RebatchingGate.h
@@ -153,6 +153,10 @@ class RebatchingBooleanGate : public IGate {
     auto& src = wireKeeper_.getBatchBooleanValue(batchWireID_);
     for (size_t i = 0; i < unbatchingStrategy_->size(); i++) {
       std::vector<bool> dst(unbatchingStrategy_->at(i));
+      if (batchIndex + dst.size() > src.size()) {
+        throw std::runtime_error(
+            "Failed to unbatch, you are unbatching to more values than the input has.");
+      }
       std::copy(
           src.begin() + batchIndex,
           src.begin() + batchIndex + dst.size(),
-- 
2.43.0


From b22702f81e956ad70ccf04b8b6c89e3e946deb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:48 +0000
Subject: [PATCH 10/53] fix: in-memory channel kept already delivered bytes
 when a receive took part of a message

---
 .../communication/InMemoryPartyCommunicationAgentHost.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
index 194fbbd..3d0e452 100644
--- a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
+++ b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
@@ -60,13 +60,13 @@ std::vector<unsigned char> InMemoryPartyCommunicationAgentHost::receive(
           lock, [&]() { return !buffers_[1 - myId].empty(); });
     }
     auto& buf = *buffers_[1 - myId].front();
-    if (size - result.size() >= buf.size()) {
+    auto remaining = size - result.size();
+    if (remaining >= buf.size()) {
       result.insert(result.end(), buf.begin(), buf.end());
       buffers_[1 - myId].pop();
     } else {
-      result.insert(
-          result.end(), buf.begin(), buf.begin() + size - result.size());
-      buf.erase(buf.begin(), buf.begin() + size - result.size());
+      result.insert(result.end(), buf.begin(), buf.begin() + remaining);
+      buf.erase(buf.begin(), buf.begin() + remaining);
     }
   }
   return result;
-- 
2.43.0


From 3cf1eb1f17c52c3e299e13a1efb3a3d249b2b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 11/53] fix: socket channels reported short reads and writes of
 a lost connection as success (or looped forever with TLS)

---
 .../SocketPartyCommunicationAgent.cpp         | 49 +++++++++++++------
 .../SocketPartyCommunicationAgent.h           |  2 +
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 01ec87a..b47cd7c 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -122,40 +122,61 @@ SocketPartyCommunicationAgent::~SocketPartyCommunicationAgent() {
 }
 
 void SocketPartyCommunicationAgent::sendImpl(const void* data, int nBytes) {
-  size_t bytesWritten;
+  size_t expected = nBytes;
+  size_t bytesWritten = 0;
   if (!ssl_) {
-    bytesWritten = fwrite(data, sizeof(unsigned char), nBytes, outgoingPort_);
+    bytesWritten = fwrite(data, sizeof(unsigned char), expected, outgoingPort_);
+    if (bytesWritten != expected || fflush(outgoingPort_) != 0) {
+      throw std::runtime_error("error on sending data: connection lost");
+    }
   } else {
-    bytesWritten = SSL_write(ssl_, data, nBytes);
+    while (bytesWritten < expected) {
+      auto rst = SSL_write(
+          ssl_,
+          (const unsigned char*)data + bytesWritten,
+          expected - bytesWritten);
+      if (rst > 0) {
+        bytesWritten += rst;
+      } else if (!canRetry(rst)) {
+        throw std::runtime_error("error on sending data: " + getErrorInfo());
+      }
+    }
   }
-  assert(bytesWritten == nBytes);
   recorder_->addSentData(bytesWritten);
-  if (!ssl_) {
-    fflush(outgoingPort_);
-  }
 }
 
 void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
+  size_t expected = nBytes;
   size_t bytesRead = 0;
 
   if (!ssl_) {
-    bytesRead = fread(data, sizeof(unsigned char), nBytes, incomingPort_);
+    bytesRead = fread(data, sizeof(unsigned char), expected, incomingPort_);
+    if (bytesRead != expected) {
+      throw std::runtime_error("error on receiving data: connection lost");
+    }
   } else {
     // fread is blocking, but SSL_read is nonblocking. This discrepancy
     // can cause issues at the application level. We need to make sure that
     // both APIs behave consistently, so here we add a loop to ensure we
     // mimick blocking behavior.
-    while (bytesRead < nBytes) {
-      bytesRead += SSL_read(
-          ssl_,
-          (unsigned char*)data + (bytesRead * sizeof(unsigned char)),
-          nBytes - bytesRead);
+    while (bytesRead < expected) {
+      auto rst = SSL_read(
+          ssl_, (unsigned char*)data + bytesRead, expected - bytesRead);
+      if (rst > 0) {
+        bytesRead += rst;
+      } else if (!canRetry(rst)) {
+        throw std::runtime_error("error on receiving data: " + getErrorInfo());
+      }
     }
   }
-  assert(bytesRead == nBytes);
   recorder_->addReceivedData(bytesRead);
 }
 
+bool SocketPartyCommunicationAgent::canRetry(int rst) {
+  auto error = SSL_get_error(ssl_, rst);
+  return error == SSL_ERROR_WANT_READ || error == SSL_ERROR_WANT_WRITE;
+}
+
 void SocketPartyCommunicationAgent::openServerPort(int sockFd, int portNo) {
   XLOG(INFO) << "try to connect as server at port " << portNo;
 
diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.h b/fbpcf/engine/communication/SocketPartyCommunicationAgent.h
index b69a426..aff5b02 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.h
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.h
@@ -107,6 +107,8 @@ class SocketPartyCommunicationAgent final : public IPartyCommunicationAgent {
   /*
    * helper functions for shared code between TLS and non-TLS implementations
    */
+  // whether a failed SSL_read/SSL_write was merely interrupted
+  bool canRetry(int rst);
   int connectToHost(const std::string& serverAddress, int portNo);
   int receiveFromClient(int portNo);
   FILE* incomingPort_;
-- 
2.43.0


From ec6c9aad985953f5ddbaeae5f3f19598a38f5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 12/53] fix: TLS channels never closed their socket

---
 .../communication/SocketPartyCommunicationAgent.cpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index b47cd7c..5950379 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -116,8 +116,10 @@ SocketPartyCommunicationAgent::~SocketPartyCommunicationAgent() {
     fclose(outgoingPort_);
     fclose(incomingPort_);
   } else {
+    auto sockFd = SSL_get_fd(ssl_);
     SSL_shutdown(ssl_);
     SSL_free(ssl_);
+    close(sockFd);
   }
 }
 
@@ -228,6 +230,10 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   // ensure we use TLS 1.3
   SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
 
+  // sessions are never resumed; a ticket left unread by the client would turn
+  // its close into a reset and lose the data it sent last
+  SSL_CTX_set_num_tickets(ctx, 0);
+
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
 
@@ -293,6 +299,10 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   // ensure we use TLS 1.3
   SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
 
+  // sessions are never resumed; a ticket left unread by the client would turn
+  // its close into a reset and lose the data it sent last
+  SSL_CTX_set_num_tickets(ctx, 0);
+
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
 
-- 
2.43.0


From 058b20c385f27671525edf8f508c594f2b8ca8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 13/53] fix: BufferedReader must report a failing or stalled
 base reader

The base readers report errors by returning -1 (CloudFileReader) or by
delivering nothing before the end of the file; the buffered reader took
the -1 as a length and read outside of its buffer, or looped forever.
---
 fbpcf/io/api/BufferedReader.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/api/BufferedReader.cpp b/fbpcf/io/api/BufferedReader.cpp
index 05e5100..f369ea4 100644
--- a/fbpcf/io/api/BufferedReader.cpp
+++ b/fbpcf/io/api/BufferedReader.cpp
@@ -78,6 +78,10 @@ std::string BufferedReader::readLine() {
 
   if (currentPosition_ == lastPosition_) {
     loadNextChunk();
+    if (currentPosition_ == lastPosition_) {
+      // the base reader only now found out that it is exhausted
+      throw std::runtime_error("There are no more lines in this file.");
+    }
   }
 
   auto c = buffer_.at(currentPosition_++);
@@ -93,6 +97,10 @@ std::string BufferedReader::readLine() {
       }
 
       loadNextChunk();
+      if (currentPosition_ == lastPosition_) {
+        // the file ended exactly at the end of the previous chunk
+        break;
+      }
     }
 
     c = buffer_.at(currentPosition_++);
@@ -111,10 +119,17 @@ std::string BufferedReader::readLine() {
 }
 
 void BufferedReader::loadNextChunk() {
+  // nothing is left in the buffer, even if reading fails
+  lastPosition_ = 0;
+  currentPosition_ = 0;
+
   auto bytesRead = baseReader_->read(buffer_);
+  if (bytesRead > buffer_.size() || (bytesRead == 0 && !baseReader_->eof())) {
+    // the base reader reports errors by returning -1 (or nothing at all)
+    throw std::runtime_error("Failed to read the next chunk of data.");
+  }
 
   lastPosition_ = bytesRead;
-  currentPosition_ = 0;
 }
 
 } // namespace fbpcf::io
-- 
2.43.0


From 91d6a219d320e2afe92d760814efbb6d26064309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 14/53] fix: CloudFileReader with a given reader forgot the
 path of its file

---
 fbpcf/io/api/CloudFileReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/api/CloudFileReader.h b/fbpcf/io/api/CloudFileReader.h
index 3d243f1..819bcb0 100644
--- a/fbpcf/io/api/CloudFileReader.h
+++ b/fbpcf/io/api/CloudFileReader.h
@@ -31,7 +31,8 @@ class CloudFileReader : public IReaderCloser {
 
   explicit CloudFileReader(
       const std::string& filePath,
-      const std::shared_ptr<cloudio::IFileReader>& cloudFileReader) {
+      const std::shared_ptr<cloudio::IFileReader>& cloudFileReader)
+      : filePath_{filePath} {
     cloudFileReader_ = cloudFileReader;
     init(filePath);
   }
-- 
2.43.0


From 61673ec887a12d43399d0829fb7b91377cd92201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 15/53] fix: a GCS download that breaks off must not pass as
 the whole object

---
 fbpcf/io/GCSFileManager.h             | 17 +++++++++++++++--
 fbpcf/io/cloud_util/GCSFileReader.cpp |  4 ++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/fbpcf/io/GCSFileManager.h b/fbpcf/io/GCSFileManager.h
index 9a3e68b..fca90b7 100644
--- a/fbpcf/io/GCSFileManager.h
+++ b/fbpcf/io/GCSFileManager.h
@@ -77,14 +77,27 @@ std::string GCSFileManager<ClientCls>::readBytes(
   }
   std::stringstream ss;
   ss << outcome.rdbuf();
+  // the download may also break off while it is being read
+  if (!outcome.status().ok()) {
+    throw GcpException{outcome.status().message()};
+  }
   return ss.str();
 }
 
 template <class ClientCls>
 std::string GCSFileManager<ClientCls>::read(const std::string& fileName) {
-  auto stream = getInputStream(fileName);
+  const auto& ref = fbpcf::gcp::uriToObjectReference(fileName);
+
+  auto outcome = GCSClient_->ReadObject(ref.bucket, ref.key, gcs::ReadRange());
+  if (!outcome.status().ok()) {
+    throw GcpException{outcome.status().message()};
+  }
   std::stringstream ss;
-  ss << stream->get().rdbuf();
+  ss << outcome.rdbuf();
+  // the download may also break off while it is being read
+  if (!outcome.status().ok()) {
+    throw GcpException{outcome.status().message()};
+  }
   return ss.str();
 }
 
diff --git a/fbpcf/io/cloud_util/GCSFileReader.cpp b/fbpcf/io/cloud_util/GCSFileReader.cpp
index 53a5bdb..e3b8cfe 100644
--- a/fbpcf/io/cloud_util/GCSFileReader.cpp
+++ b/fbpcf/io/cloud_util/GCSFileReader.cpp
@@ -25,6 +25,10 @@ std::string GCSFileReader::readBytes(
   }
   std::stringstream ss;
   ss << outcome.rdbuf();
+  // the download may also break off while it is being read
+  if (!outcome.status().ok()) {
+    throw GcpException{outcome.status().message()};
+  }
   return ss.str();
 }
 
-- 
2.43.0


From 5d6d2c4debf4f0f465918bb640298c06cb0c8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 16/53] fix: an empty byte range of an S3 object must not
 return the whole object

---
 fbpcf/io/S3FileManager.cpp           | 9 +++++++++
 fbpcf/io/cloud_util/S3FileReader.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/fbpcf/io/S3FileManager.cpp b/fbpcf/io/S3FileManager.cpp
index a3899c6..78f3a11 100644
--- a/fbpcf/io/S3FileManager.cpp
+++ b/fbpcf/io/S3FileManager.cpp
@@ -42,6 +42,15 @@ std::string S3FileManager::readBytes(
     const std::string& fileName,
     std::size_t start,
     std::size_t end) {
+  if (start > end) {
+    throw AwsException{"Start byte is larger than the end byte."};
+  }
+  if (start == end) {
+    // An empty range can't be expressed in a request: S3 would ignore it and
+    // return the whole object.
+    return "";
+  }
+
   const auto& ref = fbpcf::aws::uriToObjectReference(fileName);
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
diff --git a/fbpcf/io/cloud_util/S3FileReader.cpp b/fbpcf/io/cloud_util/S3FileReader.cpp
index e6f5ec1..81bb941 100644
--- a/fbpcf/io/cloud_util/S3FileReader.cpp
+++ b/fbpcf/io/cloud_util/S3FileReader.cpp
@@ -18,6 +18,15 @@ std::string S3FileReader::readBytes(
     const std::string& filePath,
     std::size_t start,
     std::size_t end) {
+  if (start > end) {
+    throw AwsException{"Start byte is larger than the end byte."};
+  }
+  if (start == end) {
+    // An empty range can't be expressed in a request: S3 would ignore it and
+    // return the whole object.
+    return "";
+  }
+
   const auto& ref = fbpcf::aws::uriToObjectReference(filePath);
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
-- 
2.43.0


From 59f031159954ad98e3dfed96bf815046a3a6b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 17/53] fix: copying a missing local file to S3 must fail

---
 fbpcf/io/S3FileManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/S3FileManager.cpp b/fbpcf/io/S3FileManager.cpp
index 78f3a11..15a312f 100644
--- a/fbpcf/io/S3FileManager.cpp
+++ b/fbpcf/io/S3FileManager.cpp
@@ -20,6 +20,7 @@
 #include "S3InputStream.h"
 #include "fbpcf/aws/S3Util.h"
 #include "fbpcf/exception/AwsException.h"
+#include "fbpcf/exception/PcfException.h"
 
 namespace fbpcf {
 
@@ -93,8 +94,11 @@ void S3FileManager::write(
 void S3FileManager::copy(
     const std::string& sourceFile,
     const std::string& destination) {
-  std::shared_ptr<std::iostream> sourceData = std::make_shared<std::fstream>(
+  auto sourceData = std::make_shared<std::fstream>(
       sourceFile.c_str(), std::ios_base::in | std::ios_base::binary);
+  if (!sourceData->is_open()) {
+    throw PcfException{"Failed to open file " + sourceFile};
+  }
   writeDataStream(destination, sourceData);
 }
 
-- 
2.43.0


From 455c86abaf6b50b146cf72ced91f8da69825fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 18/53] fix: an S3 upload with a lost part must not be
 completed

After a part failed (and the upload couldn't be aborted either) the
following parts and the completion could still succeed, which left an
object without that part and reported success.
---
 fbpcf/io/cloud_util/S3FileUploader.cpp | 9 +++++++++
 fbpcf/io/cloud_util/S3FileUploader.h   | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/fbpcf/io/cloud_util/S3FileUploader.cpp b/fbpcf/io/cloud_util/S3FileUploader.cpp
index 0a06185..638f598 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.cpp
+++ b/fbpcf/io/cloud_util/S3FileUploader.cpp
@@ -46,6 +46,10 @@ void S3FileUploader::init() {
   }
 }
 int S3FileUploader::upload(std::vector<char>& buf) {
+  if (failed_) {
+    XLOG(ERR) << "A previous part failed to upload.";
+    return 0;
+  }
   XLOG(INFO) << "Start uploading part:" << "Part number: " << partNumber_
              << "\nBucket: " << bucket_ << "\nKey: " << key_;
   Aws::S3::Model::UploadPartRequest request;
@@ -78,11 +82,16 @@ int S3FileUploader::upload(std::vector<char>& buf) {
     return str.size();
   } else {
     XLOG(INFO) << "Upload part " << partNumber_ << " failed. Aborting...";
+    failed_ = true;
     abortUpload();
     return 0;
   }
 }
 int S3FileUploader::complete() {
+  if (failed_) {
+    XLOG(ERR) << "File " << filePath_ << " failed to upload.";
+    return -1;
+  }
   Aws::S3::Model::CompleteMultipartUploadRequest request;
   request.SetBucket(bucket_);
   request.SetKey(key_);
diff --git a/fbpcf/io/cloud_util/S3FileUploader.h b/fbpcf/io/cloud_util/S3FileUploader.h
index dbfadea..0b7bf89 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.h
+++ b/fbpcf/io/cloud_util/S3FileUploader.h
@@ -34,6 +34,8 @@ class S3FileUploader : public IFileUploader {
   std::string key_;
   std::string uploadId_;
   std::size_t partNumber_ = 1;
+  // a part couldn't be uploaded, the object would be incomplete
+  bool failed_ = false;
   Aws::Vector<Aws::S3::Model::CompletedPart> completedParts_;
 };
 
-- 
2.43.0


From c80aa3fcad1514ccf0ece93dce7a019d82e2fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 19/53] fix: LocalFileManager::readBytes cut the bytes at the
 first NUL

and failed (or overflowed the stack) for ranges longer than the stream's
buffer (or the stack).
---
 fbpcf/io/LocalFileManager.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index f37e5c9..37e06e6 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -81,19 +81,16 @@ std::string LocalFileManager::readBytes(
   auto validatedEnd = std::min(length, end);
   size_t bufferLength = validatedEnd - start;
 
-  char buffer[bufferLength + 1];
+  std::string s(bufferLength, '\0');
 
   // read data as a block:
-  if (is.readsome(buffer, bufferLength) != bufferLength) {
+  if (!is.read(s.data(), bufferLength)) {
     throw PcfException{
         folly::sformat(
             "Hit exception when trying to read bytes from {}", fileName),
     };
   }
 
-  buffer[bufferLength] = '\0';
-
-  std::string s{buffer};
   return s;
 }
 } // namespace fbpcf
-- 
2.43.0


From a76696ef95a96371d8d42f3ef67f3a079de9c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 20/53] fix: local writes must work for plain file names and
 report failures

LocalFileManager::write failed for names without a directory and ignored
errors of the final write; the whole-file helpers ignored the result of
closing the written file.
---
 fbpcf/io/LocalFileManager.cpp   | 8 +++++++-
 fbpcf/io/api/FileIOWrappers.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index 37e06e6..62dc10f 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -42,13 +42,19 @@ void LocalFileManager::write(
     const std::string& fileName,
     const std::string& data) {
   std::filesystem::path filePath{fileName};
-  std::filesystem::create_directories(filePath.parent_path());
+  if (filePath.has_parent_path()) {
+    std::filesystem::create_directories(filePath.parent_path());
+  }
   std::ofstream os{fileName};
   if (!os.is_open()) {
     throw PcfException{folly::sformat("Failed to open file {}", fileName)};
   }
 
   os << data;
+  os.close();
+  if (os.fail()) {
+    throw PcfException{folly::sformat("Failed to write file {}", fileName)};
+  }
 }
 
 void LocalFileManager::copy(
diff --git a/fbpcf/io/api/FileIOWrappers.cpp b/fbpcf/io/api/FileIOWrappers.cpp
index 346b732..e2c861d 100644
--- a/fbpcf/io/api/FileIOWrappers.cpp
+++ b/fbpcf/io/api/FileIOWrappers.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <cstddef>
+#include <stdexcept>
 #include <string>
 
 #include "fbpcf/io/api/BufferedReader.h"
@@ -38,7 +39,9 @@ void FileIOWrappers::writeFile(
   auto bufferedWriter =
       std::make_unique<fbpcf::io::BufferedWriter>(std::move(fileWriter));
   bufferedWriter->writeString(content);
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write file " + destPath);
+  }
 }
 
 void FileIOWrappers::transferFileInParts(
@@ -60,7 +63,9 @@ void FileIOWrappers::transferFileInParts(
   }
 
   bufferedReader->close();
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write file " + destPath);
+  }
 }
 
 bool FileIOWrappers::readCsv(
-- 
2.43.0


From cdbfd609949e1a0f55c8ff19a8f43f72b662dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 21/53] fix: an empty file can be uploaded to S3

---
 fbpcf/io/cloud_util/S3FileUploader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fbpcf/io/cloud_util/S3FileUploader.cpp b/fbpcf/io/cloud_util/S3FileUploader.cpp
index 638f598..2b42321 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.cpp
+++ b/fbpcf/io/cloud_util/S3FileUploader.cpp
@@ -88,6 +88,11 @@ int S3FileUploader::upload(std::vector<char>& buf) {
   }
 }
 int S3FileUploader::complete() {
+  if (!failed_ && completedParts_.empty()) {
+    // an upload can't be completed without any part, not even an empty one
+    std::vector<char> empty;
+    upload(empty);
+  }
   if (failed_) {
     XLOG(ERR) << "File " << filePath_ << " failed to upload.";
     return -1;
-- 
2.43.0


From c8db3f7eac3dde0468c75659d0d78c9d6317d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 22/53] fix: Intp arithmetic wraps around for every width

Subtracting below zero and negating zero threw for unsigned widths without a
native type, and wrapping signed values of width 31 and 63 overflowed.
---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 231fbbb..18f827d 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -62,7 +62,7 @@ class Intp {
     if constexpr (isSigned) {
       return v_ == kMin ? v_ : -v_;
     } else {
-      return kOffSet - v_;
+      return round(kOffSet - v_);
     }
   }
 
@@ -82,15 +82,17 @@ class Intp {
   static constexpr NativeType kOffSet =
       width == 64 ? 0 : (ULLONG_MAX >> (64 - width)) + 1;
 
-  inline static NativeType round(NativeType v) {
-    if (v > kMax) {
-      return v - kOffSet;
-    } else if constexpr (isSigned) {
-      if (v < kMin) {
-        return v + kOffSet;
+  // keep the lowest "width" bits, interpreted as a two's complement number if
+  // the type is signed.
+  inline static NativeType round(uint64_t v) {
+    constexpr uint64_t mask = ULLONG_MAX >> (64 - width);
+    v &= mask;
+    if constexpr (isSigned) {
+      if ((v >> (width - 1)) & 1) {
+        v |= ~mask;
       }
     }
-    return v;
+    return static_cast<NativeType>(v);
   }
 
  private:
-- 
2.43.0


From ae6f10c8660931006ddc32a41782c875df1f31c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 23/53] fix: converting a negative Intp to bits stays within
 its width

---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 18f827d..9ec8cb1 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -159,7 +159,7 @@ class Adapters<Intp<isSigned, width>> {
   static std::vector<bool> convertToBits(const Intp<isSigned, width>& src) {
     std::vector<bool> rst(width, 0);
     uint64_t tmp = src;
-    for (size_t t = 0; tmp > 0; t++) {
+    for (size_t t = 0; t < width; t++) {
       rst[t] = tmp & 1;
       tmp >>= 1;
     }
-- 
2.43.0


From 0bbed2551aa1cee9e744e1048e7c2924a2b1cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 24/53] fix: compaction without any selected element returns an
 empty batch

It threw std::out_of_range.
---
 fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
index 596f58c..20f38f1 100644
--- a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
+++ b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
@@ -89,6 +89,19 @@ class ShuffleBasedCompactor final
       }
     }
 
+    if (compactifiedSrc.empty()) {
+      // nothing is labeled as 1, the result is an empty batch.
+      auto emptyAndRest = std::make_shared<std::vector<uint32_t>>(
+          std::vector<uint32_t>{0, size});
+      return {
+          util::MpcAdapters<T, schedulerId>::unbatching(
+              shuffledSrc, emptyAndRest)
+              .at(0),
+          util::MpcAdapters<LabelT, schedulerId>::unbatching(
+              shuffledLabel, emptyAndRest)
+              .at(0)};
+    }
+
     // rebatch
     auto rstLabel = util::MpcAdapters<LabelT, schedulerId>::batchingWith(
         compactifiedLabel.at(0),
-- 
2.43.0


From b00ad587587a5b9f642956766ad28d6ea2daa48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 25/53] fix: LinearOram rejects values of inconsistent batch
 size up front

They were only noticed while evaluating, after party 0 had already changed its
memory.
---
 fbpcf/mpc_std_lib/oram/LinearOram_impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fbpcf/mpc_std_lib/oram/LinearOram_impl.h b/fbpcf/mpc_std_lib/oram/LinearOram_impl.h
index 2563883..6a020c6 100644
--- a/fbpcf/mpc_std_lib/oram/LinearOram_impl.h
+++ b/fbpcf/mpc_std_lib/oram/LinearOram_impl.h
@@ -48,6 +48,11 @@ void LinearOram<T, schedulerId>::obliviousAddBatch(
     throw std::runtime_error("Input cannot be empty");
   }
   auto batchSize = indexShares.at(0).size();
+  for (auto& item : valueShares) {
+    if (item.size() != batchSize) {
+      throw std::runtime_error("Input size is inconsistent!");
+    }
+  }
 
   std::vector<frontend::Bit<true, schedulerId, true>> index;
   for (size_t i = 0; i < indexShares.size(); i++) {
-- 
2.43.0


From 30563e7037e8fb7461d5a418fb196e12a7a21126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 26/53] fix: OramDecoder accepts the empty breakdown tuple its
 encoder produces

---
 fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp b/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
index 3efe5b1..e0a2919 100644
--- a/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
+++ b/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
@@ -14,9 +14,10 @@ namespace fbpcf::mpc_std_lib::oram {
 OramDecoder::OramDecoder(std::unique_ptr<OramMappingConfig> config) {
   // breakdown tuple string -> oram index
   for (const auto& singleMapping : config->getBreakdownMapping()) {
-    // parse the key into a vector of uint values
+    // parse the key into a vector of uint values (the key of a row without any
+    // breakdowns is empty)
     std::vector<std::string> tuple(0);
-    folly::split(',', singleMapping.first, tuple);
+    folly::split(',', singleMapping.first, tuple, true /* ignoreEmpty */);
     std::vector<uint32_t> converted(tuple.size());
     std::transform(
         tuple.begin(), tuple.end(), converted.begin(), [](std::string str) {
-- 
2.43.0


From a7614224047d65f66e8f7dbcf93034585cfc68d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 27/53] fix: UdpEncryption rejects rows of differing widths
 instead of truncating them

---
 .../data_processor/UdpEncryption.cpp                   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
index 1e8ed73..1c485ce 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
@@ -38,10 +38,12 @@ void UdpEncryption::processMyData(
   if (plaintextData.size() == 0) {
     throw std::invalid_argument("can't use empty inputs");
   }
-  if (plaintextData.at(0).size() != myDataWidth_) {
-    throw std::invalid_argument(
-        "Inconsistent data width, expecting " + std::to_string(myDataWidth_) +
-        " but get " + std::to_string(plaintextData.at(0).size()));
+  for (auto& row : plaintextData) {
+    if (row.size() != myDataWidth_) {
+      throw std::invalid_argument(
+          "Inconsistent data width, expecting " + std::to_string(myDataWidth_) +
+          " but get " + std::to_string(row.size()));
+    }
   }
 
   auto [ciphertext, nonce] =
-- 
2.43.0


From 194c1c1061cd143b2ca88147cfc8512124604f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 28/53] fix: UdpEncryption keeps row indexes beyond 32 bits
 apart

---
 .../unified_data_process/data_processor/UdpEncryption.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
index d6bb054..f76d6fd 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
@@ -84,7 +84,7 @@ class UdpEncryption final : public IUdpEncryption {
   // this map records the index-to-order map, the i-th row in peer's input
   // should be indexToOrderMap_.at(i)-th in the encryption result, if i is in
   // this map.
-  std::map<int32_t, int32_t> indexToOrderMap_;
+  std::map<uint64_t, size_t> indexToOrderMap_;
 
   // the vector of cherry-picked data of matched user, the three vectors
   // consists of ciphertext, nonce, and index, respectively. We need to save the
-- 
2.43.0


From fed41daa240b27718a50027158f4cdc0dabe58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 29/53] fix: UdpEncryption reports requested rows the peer
 never sent, and forgets them

---
 .../unified_data_process/data_processor/UdpEncryption.cpp     | 1 +
 .../unified_data_process/data_processor/UdpEncryption.h       | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
index 1c485ce..f1f1fb2 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
@@ -64,6 +64,7 @@ void UdpEncryption::prepareToProcessPeerData(
   }
   statusOfProcessingPeerData_ = Status::inProgress;
 
+  indexToOrderMap_.clear();
   for (size_t i = 0; i < indexes.size(); i++) {
     indexToOrderMap_.emplace(indexes.at(i), i);
   }
diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
index f76d6fd..b8a1df9 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
@@ -68,6 +68,10 @@ class UdpEncryption final : public IUdpEncryption {
           "Can't call getProcessedData before preparation!");
     }
     statusOfProcessingPeerData_ = Status::idle;
+    if (!indexToOrderMap_.empty()) {
+      throw std::runtime_error(
+          "Some of the requested rows are not in the peer's data!");
+    }
     return {
         std::move(cherryPickedEncryption_),
         std::move(cherryPickedNonce_),
-- 
2.43.0


From 8e51a3c10669556ebe2140d121444aed54b51f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 30/53] fix: localEncryption applies the index offset it is
 given

---
 .../mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
index f40eac5..5b91b09 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
@@ -35,7 +35,7 @@ UdpUtil::localEncryption(
     __m128i prgKey,
     uint64_t indexOffset) {
   std::vector<uint64_t> indexes(plaintextData.size());
-  std::iota(indexes.begin(), indexes.end(), 0);
+  std::iota(indexes.begin(), indexes.end(), indexOffset);
   return localEncryption(plaintextData, prgKey, indexes);
 }
 
-- 
2.43.0


From c439b8e26735ef11a397c60313e024b07d12a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 31/53] fix: deserializing rows narrower than the layout is an
 error, not a read beyond the end

---
 .../serialization/RowStructureDefinition.h                  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h b/fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h
index 9985551..8ac63a1 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h
@@ -193,6 +193,12 @@ class RowStructureDefinition : public IRowStructureDefinition<schedulerId> {
       const SecString& secretSharedData) const override {
     std::vector<std::vector<bool>> secretSharedBits =
         secretSharedData.extractStringShare().getValue();
+    if (secretSharedBits.size() < getRowSizeBytes() * 8) {
+      throw std::runtime_error(folly::sformat(
+          "Secret shared rows are too narrow. Got {} bits but a row has {} bytes",
+          secretSharedBits.size(),
+          getRowSizeBytes()));
+    }
     secretSharedBits = transpose(secretSharedBits);
     std::vector<std::vector<unsigned char>> secretSharedBytes(0);
     secretSharedBytes.reserve(secretSharedBits.size());
-- 
2.43.0


From dfc8442f9a66e9202e8e84dd5c944f85f958d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 32/53] fix: packed bit fields reject rows and bits that do not
 fit, like the other columns

---
 .../serialization/PackedBitFieldColumn.h         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h b/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h
index be82105..683d689 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h
@@ -60,7 +60,23 @@ class PackedBitFieldColumn : public IColumnDefinition<schedulerId> {
         std::get<std::reference_wrapper<std::vector<NativeType>>>(inputData)
             .get();
 
+    if (bitPack.size() != writeBuffers.size()) {
+      throw std::runtime_error(folly::sformat(
+          "Invalid number of values for column {}. Got {} values but number of rows should be {} ",
+          columnName_,
+          bitPack.size(),
+          writeBuffers.size()));
+    }
+
     for (size_t i = 0; i < writeBuffers.size(); i++) {
+      if (bitPack[i].size() != subColumnNames_.size()) {
+        throw std::runtime_error(folly::sformat(
+            "Invalid number of bits for column {} at index {}. Got {} values but number of bits should be {}",
+            columnName_,
+            i,
+            bitPack[i].size(),
+            subColumnNames_.size()));
+      }
       unsigned char toWrite = 0;
       for (size_t j = 0; j < bitPack[i].size(); j++) {
         toWrite |= (bitPack[i][j] << j);
-- 
2.43.0


From c6bfade768511d51f02066b2f7f606c28390fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 33/53] fix: refuse feature columns of different sizes before
 reading them

---
 .../walr_multiplication/OTBasedMatrixMultiplication_impl.h  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
index efa1987..abb1849 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
@@ -36,6 +36,12 @@ std::vector<double> OTBasedMatrixMultiplication<schedulerId, FixedPointType>::
   }
 
   size_t nFeatures = features[0].size();
+  for (const auto& column : features) {
+    if (column.size() != nFeatures) {
+      throw std::invalid_argument(
+          "Columns of the feature matrix have different sizes.");
+    }
+  }
   if (nFeatures > std::numeric_limits<uint32_t>::max()) {
     throw std::runtime_error(
         "Due to the PRG implementation "
-- 
2.43.0


From e038ac0961fd2a32e94bc106d3871119bd4b98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 34/53] fix: let the OT based multiplication factory create
 more than one object

---
 .../walr_multiplication/OTBasedMatrixMultiplication.h         | 4 ++--
 .../walr_multiplication/OTBasedMatrixMultiplicationFactory.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h
index eec5f8f..53e093d 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h
@@ -68,7 +68,7 @@ class OTBasedMatrixMultiplication final
       bool isFeatureOwner,
       uint64_t divisor, // The precision loss will be roughly 1 / divisor
       std::unique_ptr<engine::communication::IPartyCommunicationAgent> agent,
-      std::unique_ptr<engine::util::IPrgFactory> prgFactory,
+      std::shared_ptr<engine::util::IPrgFactory> prgFactory,
       std::unique_ptr<util::COTWithRandomMessage> cotWRM,
       std::shared_ptr<OTBasedMatrixMultiplicationMetricRecorder> recorder)
       : myId_(myId),
@@ -107,7 +107,7 @@ class OTBasedMatrixMultiplication final
   bool isFeatureOwner_;
   util::NumberMapper<FixedPointType> numberMapper_;
   std::unique_ptr<engine::communication::IPartyCommunicationAgent> agent_;
-  std::unique_ptr<engine::util::IPrgFactory> prgFactory_;
+  std::shared_ptr<engine::util::IPrgFactory> prgFactory_;
   std::unique_ptr<util::COTWithRandomMessage> cotWRM_;
   std::shared_ptr<OTBasedMatrixMultiplicationMetricRecorder> recorder_;
 };
diff --git a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h
index 86b645f..7eb8602 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h
@@ -106,7 +106,7 @@ class OTBasedMatrixMultiplicationFactory final
             partnerId_,
             "walr_matrix_multiplication_traffic_to_party " +
                 std::to_string(partnerId_)),
-        std::move(prgFactory_),
+        prgFactory_,
         std::move(cotWRM),
         recorder);
   }
@@ -117,7 +117,7 @@ class OTBasedMatrixMultiplicationFactory final
   bool isFeatureOwner_;
   uint64_t divisor_;
   engine::communication::IPartyCommunicationAgentFactory& agentFactory_;
-  std::unique_ptr<engine::util::IPrgFactory> prgFactory_;
+  std::shared_ptr<engine::util::IPrgFactory> prgFactory_;
   std::unique_ptr<util::COTWithRandomMessageFactory> cotWRMFactory_;
 };
 
-- 
2.43.0


From 2ff44e7b724d2398d9fcd14f77559beb879e012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 35/53] fix: check the divisor a NumberMapper is constructed
 with

---
 fbpcf/mpc_std_lib/walr_multiplication/util/NumberMapper.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/walr_multiplication/util/NumberMapper.h b/fbpcf/mpc_std_lib/walr_multiplication/util/NumberMapper.h
index 22e737e..ed7309e 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/util/NumberMapper.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/util/NumberMapper.h
@@ -37,7 +37,9 @@ class NumberMapper {
                   int64_t>>>>;
 
  public:
-  explicit NumberMapper(uint64_t divisor) : divisor_(divisor) {}
+  explicit NumberMapper(uint64_t divisor) {
+    setDivisor(divisor);
+  }
 
   static constexpr double groupSizeEstimation =
       ((double)std::numeric_limits<FixedPointType>::max()) + 1;
-- 
2.43.0


From 226d2f6f7c290ba86f9a1ef658edd21438202241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 36/53] fix: synthetic IV as in RFC 5297, so that a short text
 and its padded version differ

---
 fbpcf/primitive/mac/S2v.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/fbpcf/primitive/mac/S2v.cpp b/fbpcf/primitive/mac/S2v.cpp
index 8d687b6..35e44cd 100644
--- a/fbpcf/primitive/mac/S2v.cpp
+++ b/fbpcf/primitive/mac/S2v.cpp
@@ -15,22 +15,24 @@ __m128i S2v::getMacM128i(const std::vector<unsigned char>& text) const {
 
 std::vector<unsigned char> S2v::getMac128(
     const std::vector<unsigned char>& text) const {
-  __m128i rb = _mm_set_epi64x(0, rb_nonce);
   std::vector<unsigned char> textCopy(text);
   std::vector<unsigned char> initialBlock(16);
 
-  __m128i initalMac = mac_->getMacM128i(initialBlock);
+  // the 128-bit string is big-endian in RFC5297, mac of the zero block
+  std::vector<unsigned char> initialMac = mac_->getMac128(initialBlock);
 
-  // dbl
-  bool msb = engine::util::getMsb(initalMac);
-  engine::util::lShiftByBitsInPlace(initalMac, 1);
-  if (msb) {
-    initalMac = _mm_xor_si128(initalMac, rb);
-  }
-  _mm_storeu_si128((__m128i*)initialBlock.data(), initalMac);
-
-  // pad
+  // dbl and pad, only for a text shorter than a block: otherwise such a text
+  // and its padded version would get the same result
   if (textCopy.size() < 16) {
+    bool msb = initialMac.at(0) >> 7;
+    for (size_t i = 0; i < 16; ++i) {
+      unsigned char carry = i + 1 < 16 ? initialMac.at(i + 1) >> 7 : 0;
+      initialMac.at(i) = (initialMac.at(i) << 1) | carry;
+    }
+    if (msb) {
+      initialMac.at(15) ^= rb_nonce;
+    }
+
     textCopy.push_back(0x80);
     while (textCopy.size() < 16) {
       textCopy.push_back(0x00);
@@ -39,7 +41,7 @@ std::vector<unsigned char> S2v::getMac128(
 
   // xor or xorend
   for (size_t i = 0; i < 16; ++i) {
-    textCopy.at(textCopy.size() - 1 - i) ^= initialBlock.at(15 - i);
+    textCopy.at(textCopy.size() - 1 - i) ^= initialMac.at(15 - i);
   }
 
   return mac_->getMac128(textCopy);
-- 
2.43.0


From 745d783019d22dfcc305e6b4b65ebe4607aca272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 37/53] fix: refuse CMAC keys that are not 16 bytes

---
 fbpcf/primitive/mac/AesCmac.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbpcf/primitive/mac/AesCmac.h b/fbpcf/primitive/mac/AesCmac.h
index 6a8e616..7f4f38a 100644
--- a/fbpcf/primitive/mac/AesCmac.h
+++ b/fbpcf/primitive/mac/AesCmac.h
@@ -12,6 +12,7 @@
 #include <smmintrin.h>
 #include <wmmintrin.h>
 #include <xmmintrin.h>
+#include <stdexcept>
 
 #include "fbpcf/engine/util/aes.h"
 #include "fbpcf/primitive/mac/IMac.h"
@@ -25,6 +26,9 @@ class AesCmac final : public IMac {
    * arbitrary inputs.
    */
   explicit AesCmac(const std::vector<unsigned char>& macKey) : macKey_(macKey) {
+    if (macKey_.size() != 16) {
+      throw std::invalid_argument("The key of AES-128 CMAC must be 16 bytes.");
+    }
     ctx_ = CMAC_CTX_new();
   }
 
-- 
2.43.0


From 009857e7391c4962e358db32aa84c1ae95cc24d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 38/53] fix: include arithmetic tuple generation in the
 engine's traffic statistics

SecretShareEngine reported only the traffic of its online agent and of the
boolean tuple generator, so everything exchanged for integer tuples was
missing. An engine without a boolean tuple generator could not report at all.
---
 fbpcf/engine/SecretShareEngine.h                  | 6 ++++--
 fbpcf/engine/tuple_generator/NullTupleGenerator.h | 3 +--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.h b/fbpcf/engine/SecretShareEngine.h
index 7297006..09a3a5e 100644
--- a/fbpcf/engine/SecretShareEngine.h
+++ b/fbpcf/engine/SecretShareEngine.h
@@ -284,9 +284,11 @@ class SecretShareEngine final : public ISecretShareEngine {
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
     auto onlineCost = communicationAgent_->getTrafficStatistics();
     auto offlineCost = tupleGenerator_->getTrafficStatistics();
+    auto arithmeticOfflineCost =
+        arithmeticTupleGenerator_->getTrafficStatistics();
     return {
-        onlineCost.first + offlineCost.first,
-        onlineCost.second + offlineCost.second};
+        onlineCost.first + offlineCost.first + arithmeticOfflineCost.first,
+        onlineCost.second + offlineCost.second + arithmeticOfflineCost.second};
   }
 
  private:
diff --git a/fbpcf/engine/tuple_generator/NullTupleGenerator.h b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
index f1d47ec..df80b1d 100644
--- a/fbpcf/engine/tuple_generator/NullTupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
@@ -62,8 +62,7 @@ class NullTupleGenerator final : public ITupleGenerator {
   }
 
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
-    throw std::runtime_error(
-        "The secret share engine is not configured with boolean tuple generator.");
+    return {0, 0};
   }
 };
 
-- 
2.43.0


From d80ae5da6c2c5fb3356669c73b00c5e68390ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 39/53] fix: make the traffic counters of the in-memory agent
 atomic

Tuple generators use their agents from background threads, so reading the
statistics of a running computation was a data race.
---
 .../communication/InMemoryPartyCommunicationAgentHost.h     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h
index 33a377c..01749df 100644
--- a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h
+++ b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h
@@ -6,6 +6,7 @@
  */
 
 #pragma once
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <queue>
@@ -44,8 +45,9 @@ class InMemoryPartyCommunicationAgent final : public IPartyCommunicationAgent {
   InMemoryPartyCommunicationAgentHost& host_;
   int myId_;
 
-  uint64_t sentData_;
-  uint64_t receivedData_;
+  // read by other threads while the agent is in use
+  std::atomic_uint64_t sentData_;
+  std::atomic_uint64_t receivedData_;
 };
 
 /**
-- 
2.43.0


From 14d1560d74808c7820dd3ed59f5470bdef37976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 40/53] fix: keep metric recorders registered under the same
 name

A recorder whose name was already taken was dropped silently, so with more
than two parties or several generators part of the traffic was missing from
the collected and aggregated metrics.
---
 fbpcf/util/MetricCollector.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fbpcf/util/MetricCollector.h b/fbpcf/util/MetricCollector.h
index fce655d..54a28c6 100644
--- a/fbpcf/util/MetricCollector.h
+++ b/fbpcf/util/MetricCollector.h
@@ -19,10 +19,17 @@ class MetricCollector {
  public:
   explicit MetricCollector(std::string prefix) : prefix_(prefix) {}
 
+  /**
+   * Register a recorder. If the name is already taken, a suffix is added so
+   * that the metrics of neither recorder are lost.
+   */
   void addNewRecorder(
       std::string name,
       std::shared_ptr<IMetricRecorder> recorder) {
-    recorders_.emplace(name, recorder);
+    auto uniqueName = name;
+    for (size_t i = 2; !recorders_.emplace(uniqueName, recorder).second; i++) {
+      uniqueName = name + "_" + std::to_string(i);
+    }
   }
 
   folly::dynamic collectMetrics() const {
-- 
2.43.0


From 2c6063aafe30254169c6eefc422a89b1e1b7adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 41/53] fix: never report more consumed than generated tuples

Tuples were counted as consumed before they had been generated, so metrics
pulled in between reported a wrapped-around number of unused tuples.
---
 fbpcf/engine/tuple_generator/DummyTupleGenerator.h   |  2 +-
 fbpcf/engine/tuple_generator/ITupleGenerator.h       | 12 +++++++-----
 fbpcf/engine/tuple_generator/TupleGenerator.cpp      |  3 ++-
 .../tuple_generator/TwoPartyTupleGenerator.cpp       |  4 ++--
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/fbpcf/engine/tuple_generator/DummyTupleGenerator.h b/fbpcf/engine/tuple_generator/DummyTupleGenerator.h
index c9a8cbc..ea3ca9b 100644
--- a/fbpcf/engine/tuple_generator/DummyTupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/DummyTupleGenerator.h
@@ -23,8 +23,8 @@ class DummyTupleGenerator final : public ITupleGenerator {
     for (size_t i = 0; i < size; i++) {
       result.push_back(BooleanTuple(0, 0, 0));
     }
-    recorder_->addTuplesConsumed(size);
     recorder_->addTuplesGenerated(size);
+    recorder_->addTuplesConsumed(size);
     return result;
   }
 
diff --git a/fbpcf/engine/tuple_generator/ITupleGenerator.h b/fbpcf/engine/tuple_generator/ITupleGenerator.h
index d4226c0..d909d2a 100644
--- a/fbpcf/engine/tuple_generator/ITupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/ITupleGenerator.h
@@ -56,11 +56,13 @@ class TuplesMetricRecorder final : public fbpcf::util::IMetricRecorder {
   }
 
   folly::dynamic getMetrics() const override {
-    return folly::dynamic::object(
-        "boolean_tuples_generated", tuplesGenerated_.load())(
-        "boolean_tuples_consumed", tuplesConsumed_.load())(
-        "boolean_tuples_unused",
-        tuplesGenerated_.load() - tuplesConsumed_.load())(
+    // tuples are generated before they are consumed: reading in the opposite
+    // order keeps the difference from becoming negative.
+    uint64_t tuplesConsumed = tuplesConsumed_;
+    uint64_t tuplesGenerated = tuplesGenerated_;
+    return folly::dynamic::object("boolean_tuples_generated", tuplesGenerated)(
+        "boolean_tuples_consumed", tuplesConsumed)(
+        "boolean_tuples_unused", tuplesGenerated - tuplesConsumed)(
         "composite_tuples_requested",
         compositeTuplesWithoutExpansionRequested_.load() +
             compositeTuplesRequiringExpansionRequested_.load())(
diff --git a/fbpcf/engine/tuple_generator/TupleGenerator.cpp b/fbpcf/engine/tuple_generator/TupleGenerator.cpp
index 5bcc0f3..38d99e7 100644
--- a/fbpcf/engine/tuple_generator/TupleGenerator.cpp
+++ b/fbpcf/engine/tuple_generator/TupleGenerator.cpp
@@ -28,8 +28,9 @@ TupleGenerator::TupleGenerator(
 
 std::vector<ITupleGenerator::BooleanTuple> TupleGenerator::getBooleanTuple(
     uint32_t size) {
+  auto tuples = asyncBuffer_.getData(size);
   recorder_->addTuplesConsumed(size);
-  return asyncBuffer_.getData(size);
+  return tuples;
 }
 
 /**
diff --git a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp
index ddef570..a4a7d47 100644
--- a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp
+++ b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp
@@ -51,9 +51,9 @@ TwoPartyTupleGenerator::TwoPartyTupleGenerator(
 
 std::vector<ITupleGenerator::BooleanTuple>
 TwoPartyTupleGenerator::getBooleanTuple(uint32_t size) {
+  auto tuples = booleanTupleBuffer_.getData(size);
   recorder_->addTuplesConsumed(size);
-
-  return booleanTupleBuffer_.getData(size);
+  return tuples;
 }
 
 std::map<size_t, std::vector<ITupleGenerator::CompositeBooleanTuple>>
-- 
2.43.0


From a4486e305924e7cbd2712d45956b74b8802243c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 42/53] fix: run applications in every execution of an
 MpcAppExecutor

The pool was joined by the first execution; later ones queued their
applications with nobody left to run them and returned.
---
 fbpcf/mpc/MpcAppExecutor.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/fbpcf/mpc/MpcAppExecutor.h b/fbpcf/mpc/MpcAppExecutor.h
index 17a4c71..b237449 100644
--- a/fbpcf/mpc/MpcAppExecutor.h
+++ b/fbpcf/mpc/MpcAppExecutor.h
@@ -18,27 +18,27 @@ namespace fbpcf {
 template <class AppType>
 class MpcAppExecutor {
  public:
-  explicit MpcAppExecutor(int16_t concurrency) : concurrency_{concurrency} {
-    executor_ = std::make_unique<folly::CPUThreadPoolExecutor>(
-        concurrency,
-        std::make_unique<folly::UnboundedBlockingQueue<
-            folly::CPUThreadPoolExecutor::CPUTask>>());
-
-    executor_->addObserver(std::make_shared<MyObserver>());
-  }
+  explicit MpcAppExecutor(int16_t concurrency) : concurrency_{concurrency} {}
 
   // execute MpcApps concurrently
   void execute(const std::vector<std::unique_ptr<AppType>>& mpcApps) {
+    // a pool that was joined doesn't run anything anymore, so every execution
+    // needs its own
+    folly::CPUThreadPoolExecutor executor(
+        concurrency_,
+        std::make_unique<folly::UnboundedBlockingQueue<
+            folly::CPUThreadPoolExecutor::CPUTask>>());
+    executor.addObserver(std::make_shared<MyObserver>());
+
     for (auto& app : mpcApps) {
-      executor_->add([&app]() { app->run(); });
+      executor.add([&app]() { app->run(); });
     }
 
-    executor_->join();
+    executor.join();
   }
 
  private:
   int16_t concurrency_;
-  std::unique_ptr<folly::CPUThreadPoolExecutor> executor_;
 
   class MyObserver : public folly::CPUThreadPoolExecutor::Observer {
    public:
-- 
2.43.0


From a6dffdf37480e8b6f2579afd4700f54ae85dce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 43/53] fix: count bytes of the queue channel in 64 bits

The counter overflowed for messages of 2 GB and more.
---
 fbpcf/mpc/QueueIO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbpcf/mpc/QueueIO.cpp b/fbpcf/mpc/QueueIO.cpp
index 13ff728..035af02 100644
--- a/fbpcf/mpc/QueueIO.cpp
+++ b/fbpcf/mpc/QueueIO.cpp
@@ -10,14 +10,14 @@
 namespace fbpcf {
 void QueueIO::send_data_internal(const void* data, int64_t len) {
   outQueue_->withWLock([&data, len](auto& locked) {
-    for (auto i = 0; i < len; i++) {
+    for (int64_t i = 0; i < len; i++) {
       locked.push(*((char*)data + i));
     }
   });
 }
 
 void QueueIO::recv_data_internal(void* data, int64_t len) {
-  for (auto i = 0; i < len; i++) {
+  for (int64_t i = 0; i < len; i++) {
     while (inQueue_->rlock()->empty()) {
     }
     *((char*)data + i) = inQueue_->rlock()->front();
-- 
2.43.0


From 162504715a8b8955814a7b426cd49c861a62adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 44/53] fix: keep dots in bucket names of GCS hosts

Only the part before the first dot was used, which is another bucket.
---
 fbpcf/gcp/GCSUtil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/gcp/GCSUtil.cpp b/fbpcf/gcp/GCSUtil.cpp
index ee67b21..7e9a604 100644
--- a/fbpcf/gcp/GCSUtil.cpp
+++ b/fbpcf/gcp/GCSUtil.cpp
@@ -40,7 +40,8 @@ GCSObjectReference uriToObjectReference(std::string url) {
   if (boost::iequals(scheme, "gs")) {
     bucket = host;
   } else if (host.find(".storage.googleapis.com") != std::string::npos) {
-    bucket = host.substr(0, host.find_first_of("."));
+    // the bucket name may contain dots itself
+    bucket = host.substr(0, host.rfind(".storage.googleapis.com"));
   } else {
     // Remove the first character '/' in path
     path = path.substr(1);
-- 
2.43.0


From c5e581cbf543bde95391562d42ea76c0634d9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 45/53] fix: refuse addresses that are not of GCS

Any host was accepted with the start of its path as the bucket, and so was an
empty bucket.
---
 fbpcf/gcp/GCSUtil.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/fbpcf/gcp/GCSUtil.cpp b/fbpcf/gcp/GCSUtil.cpp
index 7e9a604..a34df37 100644
--- a/fbpcf/gcp/GCSUtil.cpp
+++ b/fbpcf/gcp/GCSUtil.cpp
@@ -39,10 +39,13 @@ GCSObjectReference uriToObjectReference(std::string url) {
 
   if (boost::iequals(scheme, "gs")) {
     bucket = host;
-  } else if (host.find(".storage.googleapis.com") != std::string::npos) {
+  } else if (boost::iends_with(host, ".storage.googleapis.com")) {
     // the bucket name may contain dots itself
-    bucket = host.substr(0, host.rfind(".storage.googleapis.com"));
-  } else {
+    bucket = host.substr(
+        0, host.length() - std::string(".storage.googleapis.com").length());
+  } else if (
+      boost::iequals(host, "storage.cloud.google.com") ||
+      boost::iequals(host, "storage.googleapis.com")) {
     // Remove the first character '/' in path
     path = path.substr(1);
     pos = path.find("/");
@@ -53,6 +56,18 @@ GCSObjectReference uriToObjectReference(std::string url) {
           url)};
     }
     bucket = path.substr(0, pos);
+  } else {
+    throw GcpException{folly::sformat(
+        "Incorrect GCS URI format: {}"
+        "unknown host",
+        url)};
+  }
+
+  if (bucket.empty()) {
+    throw GcpException{folly::sformat(
+        "Incorrect GCS URI format: {}"
+        "bucket not specified",
+        url)};
   }
 
   // path.substr(pos+1) to remove the first character '/'
-- 
2.43.0


From 49bdab4daa1cb9e6dea5a9d2490a854853f29b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 46/53] fix: refuse S3 addresses of other hosts or without
 bucket

---
 fbpcf/aws/S3Util.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fbpcf/aws/S3Util.cpp b/fbpcf/aws/S3Util.cpp
index 4f3c5ec..a675756 100644
--- a/fbpcf/aws/S3Util.cpp
+++ b/fbpcf/aws/S3Util.cpp
@@ -54,7 +54,7 @@ S3ObjectReference uriToObjectReference(std::string url) {
     // Matches "bucket.s3.region.amazonaws.com" or
     // "bucket.s3-region.amazonaws.com"
     static const re2::RE2 endpoint_pattern(
-        "^(?i)(.+)\\.s3[.-]([a-z0-9-]+)\\.amazonaws.com");
+        "^(?i)(.+)\\.s3[.-]([a-z0-9-]+)\\.amazonaws\\.com");
 
     // Sub-match 1: (bucket).s3.region.amazonaws.com
     // Sub-match 2: bucket.s3.(region).amazonaws.com
@@ -69,6 +69,13 @@ S3ObjectReference uriToObjectReference(std::string url) {
     }
   }
 
+  if (bucket.empty()) {
+    throw AwsException{folly::sformat(
+        "Incorrect S3 URI format: {}"
+        "bucket not specified",
+        url)};
+  }
+
   if (path.length() <= 1) {
     throw AwsException{folly::sformat(
         "Incorrect S3 URI format: {}"
-- 
2.43.0


From 64b12c8684bac41140f4141ed5714376cdd32778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 47/53] fix: recognise cloud addresses by their exact hosts

The dots of the patterns matched anything, also a slash, so files of other
hosts were taken for S3 or GCS objects; bucket names with underscores, which
GCS allows, were not recognised.
---
 fbpcf/io/cloud_util/CloudFileUtil.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fbpcf/io/cloud_util/CloudFileUtil.cpp b/fbpcf/io/cloud_util/CloudFileUtil.cpp
index 0d1e7eb..d0e1122 100644
--- a/fbpcf/io/cloud_util/CloudFileUtil.cpp
+++ b/fbpcf/io/cloud_util/CloudFileUtil.cpp
@@ -37,9 +37,9 @@ CloudFileType getCloudFileType(const std::string& filePath) {
    *   4. gs://bucket-name/key-name
    */
   static const re2::RE2 s3Regex1(
-      "https://[a-z0-9.-]+.s3.[a-z0-9-]+.amazonaws.com/.+");
+      "https://[a-z0-9.-]+\\.s3\\.[a-z0-9-]+\\.amazonaws\\.com/.+");
   static const re2::RE2 s3Regex2(
-      "https://[a-z0-9.-]+.s3-[a-z0-9-]+.amazonaws.com/.+");
+      "https://[a-z0-9.-]+\\.s3-[a-z0-9-]+\\.amazonaws\\.com/.+");
 
   bool isS3File = re2::RE2::FullMatch(filePath, s3Regex1) ||
       re2::RE2::FullMatch(filePath, s3Regex2) || filePath.find("s3://", 0) == 0;
@@ -47,10 +47,10 @@ CloudFileType getCloudFileType(const std::string& filePath) {
     return CloudFileType::S3;
   }
 
-  static const re2::RE2 gcsRegex1("https://storage.cloud.google.com/.*");
+  static const re2::RE2 gcsRegex1("https://storage\\.cloud\\.google\\.com/.*");
   static const re2::RE2 gcsRegex2(
-      "https://[a-z0-9.-]+.storage.googleapis.com/.+");
-  static const re2::RE2 gcsRegex3("https://storage.googleapis.com/.*");
+      "https://[a-z0-9._-]+\\.storage\\.googleapis\\.com/.+");
+  static const re2::RE2 gcsRegex3("https://storage\\.googleapis\\.com/.*");
   bool isGCSFile = re2::RE2::FullMatch(filePath, gcsRegex1) ||
       re2::RE2::FullMatch(filePath, gcsRegex2) ||
       re2::RE2::FullMatch(filePath, gcsRegex3) ||
-- 
2.43.0


From 2edf7e0dc49d38cf5d461f144247ed9ff4dde375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 48/53] fix: treat s3:// and gs:// addresses as cloud files

The cloud readers and writers support them, but the file reader and writer
took them for local paths.
---
 fbpcf/io/api/IOUtils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/api/IOUtils.h b/fbpcf/io/api/IOUtils.h
index 2914667..bb32769 100644
--- a/fbpcf/io/api/IOUtils.h
+++ b/fbpcf/io/api/IOUtils.h
@@ -35,7 +35,8 @@ constexpr size_t kLocalBufferedWriterChunkSize = 4096;
 class IOUtils {
  public:
   static bool isCloudFile(std::string filePath) {
-    return filePath.find("https://", 0) == 0;
+    return filePath.find("https://", 0) == 0 ||
+        filePath.find("s3://", 0) == 0 || filePath.find("gs://", 0) == 0;
   }
 
   static const std::vector<std::string> splitByComma(std::string& str) {
-- 
2.43.0


From 4d0b7135c9b45d0696bb84643f10f92aab2fd32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 49/53] fix: let the file managers recognise every cloud
 address

s3:// and gs:// addresses were taken for local paths, so writing to them
created a local file; GCS addresses were handed to the S3 client.
---
 fbpcf/io/FileManagerUtil.cpp | 18 +++++++++++++++---
 fbpcf/io/FileManagerUtil.h   |  2 +-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/fbpcf/io/FileManagerUtil.cpp b/fbpcf/io/FileManagerUtil.cpp
index 230ba2a..0208e56 100644
--- a/fbpcf/io/FileManagerUtil.cpp
+++ b/fbpcf/io/FileManagerUtil.cpp
@@ -7,9 +7,12 @@
 
 #include "FileManagerUtil.h"
 
+#include "GCSFileManager.h"
 #include "LocalFileManager.h"
 #include "S3FileManager.h"
 #include "fbpcf/aws/S3Util.h"
+#include "fbpcf/gcp/GCSUtil.h"
+#include "fbpcf/io/cloud_util/CloudFileUtil.h"
 
 namespace fbpcf::io {
 std::unique_ptr<IInputStream> getInputStream(const std::string& fileName) {
@@ -28,14 +31,23 @@ void write(const std::string& fileName, const std::string& data) {
 }
 
 FileType getFileType(const std::string& fileName) {
-  // S3 file format: https://bucket-name.s3.Region.amazonaws.com/key-name
-  return fileName.find("https://", 0) == 0 ? FileType::S3 : FileType::Local;
+  if (cloudio::getCloudFileType(fileName) == cloudio::CloudFileType::GCS) {
+    return FileType::GCS;
+  }
+  // S3 file format: https://bucket-name.s3.Region.amazonaws.com/key-name or
+  // s3://bucket-name/key-name
+  return fileName.find("https://", 0) == 0 || fileName.find("s3://", 0) == 0
+      ? FileType::S3
+      : FileType::Local;
 }
 
 std::unique_ptr<fbpcf::IFileManager> getFileManager(
     const std::string& fileName) {
   auto type = getFileType(fileName);
-  if (type == FileType ::S3) {
+  if (type == FileType::GCS) {
+    return std::make_unique<GCSFileManager<google::cloud::storage::Client>>(
+        fbpcf::gcp::createGCSClient());
+  } else if (type == FileType::S3) {
     const auto& ref = fbpcf::aws::uriToObjectReference(fileName);
     // Other options have to be set via environment variables
     return std::make_unique<S3FileManager>(fbpcf::aws::createS3Client(
diff --git a/fbpcf/io/FileManagerUtil.h b/fbpcf/io/FileManagerUtil.h
index fa6cd3e..1dae2c8 100644
--- a/fbpcf/io/FileManagerUtil.h
+++ b/fbpcf/io/FileManagerUtil.h
@@ -14,7 +14,7 @@
 #include "IInputStream.h"
 
 namespace fbpcf::io {
-enum class FileType { Local, S3 };
+enum class FileType { Local, S3, GCS };
 
 std::unique_ptr<IInputStream> getInputStream(const std::string& fileName);
 
-- 
2.43.0


From edaf32754688b8af8e666d99f83fc423a468c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 50/53] fix: shift a 64-bit one by the indicator width in the
 stand-in difference calculator

---
 fbpcf/mpc_std_lib/oram/DummyDifferenceCalculator_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/oram/DummyDifferenceCalculator_impl.h b/fbpcf/mpc_std_lib/oram/DummyDifferenceCalculator_impl.h
index b35111c..25a9b2b 100644
--- a/fbpcf/mpc_std_lib/oram/DummyDifferenceCalculator_impl.h
+++ b/fbpcf/mpc_std_lib/oram/DummyDifferenceCalculator_impl.h
@@ -55,7 +55,8 @@ DummyDifferenceCalculator<T, indicatorSumWidth>::calculateDifferenceBatch(
     if (thisPartyToSetDifference_) {
       int32_t indicator = agent_->receiveSingleT<int32_t>();
       indicator =
-          (indicatorShares.at(i) - indicator + 1) % (1 << indicatorSumWidth) -
+          (indicatorShares.at(i) - indicator + 1) %
+              (1ull << indicatorSumWidth) -
           1; // this trick is to get the result to be from {-1, 1}
 
       T subtrahend = agent_->receiveSingleT<T>();
-- 
2.43.0


From cfc632dcd58e5bb30de28e6aab8cd12fb147f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 51/53] fix: send and receive messages longer than an int can
 count

The length reached the transport as an int: from 2 GiB on it was negative, and
a multiple of 4 GiB too short beyond that, leaving the rest of a received
message as zeros. Long messages now travel in several pieces.
---
 .../communication/IPartyCommunicationAgent.h  | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/fbpcf/engine/communication/IPartyCommunicationAgent.h b/fbpcf/engine/communication/IPartyCommunicationAgent.h
index 3808fe5..4491bcc 100644
--- a/fbpcf/engine/communication/IPartyCommunicationAgent.h
+++ b/fbpcf/engine/communication/IPartyCommunicationAgent.h
@@ -68,7 +68,7 @@ class IPartyCommunicationAgent {
    * @param data the data to be sent
    */
   void send(const std::vector<unsigned char>& data) {
-    sendImpl(static_cast<const void*>(data.data()), data.size());
+    sendBytes(data.data(), data.size());
   }
 
   /**
@@ -78,7 +78,7 @@ class IPartyCommunicationAgent {
    */
   std::vector<unsigned char> receive(size_t size) {
     std::vector<unsigned char> rst(size);
-    recvImpl(static_cast<void*>(rst.data()), size);
+    receiveBytes(rst.data(), size);
     return rst;
   }
 
@@ -96,7 +96,7 @@ class IPartyCommunicationAgent {
    * @param data the data to be sent
    */
   void sendInt64(const std::vector<uint64_t>& data) {
-    sendImpl(static_cast<const void*>(data.data()), data.size() * 8);
+    sendBytes(data.data(), data.size() * 8);
   }
 
   /**
@@ -119,19 +119,19 @@ class IPartyCommunicationAgent {
    */
   std::vector<uint64_t> receiveInt64(size_t size) {
     std::vector<uint64_t> rst(size);
-    recvImpl(static_cast<void*>(rst.data()), size * 8);
+    receiveBytes(rst.data(), size * 8);
     return rst;
   }
 
   template <typename T>
   void sendT(const std::vector<T>& src) {
-    sendImpl(static_cast<const void*>(src.data()), src.size() * sizeof(T));
+    sendBytes(src.data(), src.size() * sizeof(T));
   }
 
   template <typename T>
-  std::vector<T> receiveT(int size) {
+  std::vector<T> receiveT(size_t size) {
     std::vector<T> rst(size);
-    recvImpl(static_cast<void*>(rst.data()), size * sizeof(T));
+    receiveBytes(rst.data(), size * sizeof(T));
     return rst;
   }
 
@@ -154,6 +154,25 @@ class IPartyCommunicationAgent {
  private:
   friend class util::EmpNetworkAdapter;
 
+  // sendImpl and recvImpl count in int: longer messages travel in pieces.
+  static constexpr size_t kMaxPiece = 1 << 30;
+
+  void sendBytes(const void* data, size_t nBytes) {
+    auto src = static_cast<const unsigned char*>(data);
+    for (; nBytes > kMaxPiece; nBytes -= kMaxPiece, src += kMaxPiece) {
+      sendImpl(src, kMaxPiece);
+    }
+    sendImpl(src, nBytes);
+  }
+
+  void receiveBytes(void* data, size_t nBytes) {
+    auto dst = static_cast<unsigned char*>(data);
+    for (; nBytes > kMaxPiece; nBytes -= kMaxPiece, dst += kMaxPiece) {
+      recvImpl(dst, kMaxPiece);
+    }
+    recvImpl(dst, nBytes);
+  }
+
   // convert a vector of bits into a vector of bytes
   static std::vector<unsigned char> compressToBytes(
       const std::vector<bool>& bits) {
@@ -208,12 +227,12 @@ inline void IPartyCommunicationAgent::sendT(const std::vector<bool>& src) {
 }
 
 template <>
-inline std::vector<unsigned char> IPartyCommunicationAgent::receiveT(int size) {
+inline std::vector<unsigned char> IPartyCommunicationAgent::receiveT(size_t size) {
   return receive(size);
 }
 
 template <>
-inline std::vector<bool> IPartyCommunicationAgent::receiveT(int size) {
+inline std::vector<bool> IPartyCommunicationAgent::receiveT(size_t size) {
   return receiveBool(size);
 }
 
-- 
2.43.0


From 2180195c1942417fe91a121b4c2a00b4eb05a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 52/53] fix: report the length of the passphrase that was
 copied

A passphrase longer than the buffer made OpenSSL read past its end.
---
 fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 5950379..cc71682 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -42,7 +42,7 @@ static int
 passwordCallback(char* buf, int size, int /* rwflag */, void* userdata) {
   strncpy(buf, (char*)userdata, size);
   buf[size - 1] = '\0';
-  return strlen((char*)userdata);
+  return strlen(buf);
 }
 
 SocketPartyCommunicationAgent::SocketPartyCommunicationAgent(
-- 
2.43.0


From 5c858aea4629a7a76f50d7d55fce83e5777e1f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 53/53] fix: accept passphrases of several words

Only the first word of the passphrase file was used, so a key protected by a
passphrase with a space in it could not be opened.
---
 .../SocketPartyCommunicationAgent.cpp         | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index cc71682..c7f622a 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -45,6 +45,16 @@ passwordCallback(char* buf, int size, int /* rwflag */, void* userdata) {
   return strlen(buf);
 }
 
+// The passphrase is the first line of its file that is not blank, and may
+// consist of several words.
+static std::string readPassphrase(const std::string& path) {
+  std::ifstream file(path);
+  std::string passphrase;
+  std::getline(file >> std::ws, passphrase);
+  passphrase.erase(passphrase.find_last_not_of(" \t\r\n\f\v") + 1);
+  return passphrase;
+}
+
 SocketPartyCommunicationAgent::SocketPartyCommunicationAgent(
     int sockFd,
     int portNo,
@@ -238,10 +248,7 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
 
   auto passphrase_file = tlsDir + "/" + PASSPHRASE_FILE;
-  std::ifstream file_ptr(passphrase_file);
-  std::string passphrase_string = "";
-  file_ptr >> passphrase_string;
-  file_ptr.close();
+  auto passphrase_string = readPassphrase(passphrase_file);
   SSL_CTX_set_default_passwd_cb_userdata(ctx, (void*)passphrase_string.c_str());
 
   if (ctx == nullptr) {
@@ -307,10 +314,7 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
 
   auto passphrase_file = tlsInfo.passphrasePath;
-  std::ifstream file_ptr(passphrase_file);
-  std::string passphrase_string = "";
-  file_ptr >> passphrase_string;
-  file_ptr.close();
+  auto passphrase_string = readPassphrase(passphrase_file);
   SSL_CTX_set_default_passwd_cb_userdata(ctx, (void*)passphrase_string.c_str());
 
   if (ctx == nullptr) {
-- 
2.43.0


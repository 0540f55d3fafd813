From de05ab8c3bb07f125471e5c89629f28513d879cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 01/20] fix: absorb every byte of a word in the SHA-3 update

---
 src/frn/lib/primitives/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/primitives/hash.h b/src/frn/lib/primitives/hash.h
index ee449d2..b5df72e 100644
--- a/src/frn/lib/primitives/hash.h
+++ b/src/frn/lib/primitives/hash.h
@@ -186,9 +186,9 @@ Hash<Tag> &Hash<Tag>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From 700aecf2b2602f367b27599de1ca0940a9573ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 02/20] fix: record each multiplication mask once so batches
 stay aligned

---
 src/frn/mult.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/frn/mult.h b/src/frn/mult.h
index e95b735..4804c95 100644
--- a/src/frn/mult.h
+++ b/src/frn/mult.h
@@ -140,8 +140,6 @@ class Mult {
 
   AddAndMsgs MultiplyToAddAndMsgs(const Shr& a, const Shr& b,
                                   const RandomShare& randomShares) {
-    mRandomShares.emplace_back(randomShares);
-
     // Initialize output
     AddAndMsgs output;
     output.add_share = Field(0);
-- 
2.43.0


From 2b233346f5eb2768865e23080154893eff90aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 03/20] fix: advance the mask generators when drawing mask
 shares

---
 src/frn/input_corr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/input_corr.h b/src/frn/input_corr.h
index b4dc2bd..19a2854 100644
--- a/src/frn/input_corr.h
+++ b/src/frn/input_corr.h
@@ -46,7 +46,7 @@ class InputSetup {
     Shr GetMaskShare(unsigned id) {
       std::vector<frn::Field> share;
       share.reserve(mShareSize);
-      auto prg_id = mPrgs[id];
+      auto& prg_id = mPrgs[id];
       for (std::size_t i = 0; i < mShareSize; i++)
         share.emplace_back(GetRandomElement(prg_id[i]));
       return share;
-- 
2.43.0


From bdd4b738c03563d9fa4f92a1e5b0c55a353258d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 04/20] fix: derive input masks from every piece of the setup
 key

---
 src/frn/input_corr.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/input_corr.cc b/src/frn/input_corr.cc
index 7b76af7..3f98c1b 100644
--- a/src/frn/input_corr.cc
+++ b/src/frn/input_corr.cc
@@ -25,7 +25,10 @@ frn::InputSetup::Correlator frn::InputSetup::Run() {
   auto copy = mPrg;
   auto size = mNetwork->Size();
   auto shr_k = mReplicator.Share(k, mPrg);
-  auto add_k = frn::lib::secret_sharing::ShareAdditive(k, size, copy);
+  // one additive share per piece of the replicated sharing, so that both
+  // sharings of k consist of the same pieces.
+  auto add_k = frn::lib::secret_sharing::ShareAdditive(
+      k, mReplicator.AdditiveShareSize(), copy);
 
   for (std::size_t i = 0; i < size; i++) {
     mNetwork->SendShares(i, {shr_k[i]});
-- 
2.43.0


From f5d16d33f32d000ff0e72f4b3d9c3b8bc0159486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 05/20] fix: start every entry of the opening table with an
 empty party set

---
 src/frn/shr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/shr.cc b/src/frn/shr.cc
index 79083d7..3446d0e 100644
--- a/src/frn/shr.cc
+++ b/src/frn/shr.cc
@@ -139,9 +139,9 @@ void frn::ShrManipulator::Init() {
 
   // precompute mTableRec
   // We use the double-replicator since this will be used to reconstruct a degree-2d sharing
-  RecEntry entry;
-
   for (unsigned shr_id = 0; shr_id < mDoubleReplicator.ShareSize(); shr_id++) {
+    RecEntry entry;
+
     // We convert the input index from local to global
     int shr_id_ = mDoubleReplicator.IndexSetFor(mPartyId)[shr_id];
 
-- 
2.43.0


From 5d01592b53566400ea4f049b0cedc4edc8c6e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 06/20] fix: let all of the first 2t+1 parties compress their
 check data

---
 src/frn/check.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/check.h b/src/frn/check.h
index 7db14f5..233bc29 100644
--- a/src/frn/check.h
+++ b/src/frn/check.h
@@ -81,7 +81,7 @@ class Check {
     START_TIMER(LinearComb);
 
     // this assumes 2d+1 = n-d <> n=3d+1 (so U=T)
-    if ((0 < mId) && (mId < 2 * mThreshold - 1)) {
+    if ((0 < mId) && (mId < 2 * mThreshold + 1)) {
       for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {
 
         mCompressedCD.shares_sent_to_p1 +=
-- 
2.43.0


From 10b70b63de024ea3cf58f9cf392d26998b2b94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 07/20] fix: refuse sub-matrix ranges that end outside the
 matrix

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index ca5c7c5..4e1142b 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -92,10 +92,10 @@ class Matrix {
    */
   Matrix extract_submatrix(std::size_t row_beg, std::size_t row_end,
                            std::size_t col_beg, std::size_t col_end) {
-    if (row_beg > row_end || row_end - row_beg > RowCount())
+    if (row_beg > row_end || row_end > RowCount())
       throw std::logic_error("invalid row offsets");
 
-    if (col_beg > col_end || col_end - col_beg > ColumnCount())
+    if (col_beg > col_end || col_end > ColumnCount())
       throw std::logic_error("invalid column offsets");
 
     auto nrows = row_end - row_beg;
-- 
2.43.0


From 0d3c08547a0c5cc1e0fbd7688a23dbca82206fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 08/20] fix: print non-square matrices row by row

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index 4e1142b..bc13173 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -254,8 +254,8 @@ class Matrix {
    * @return a string representation of this matrix
    */
   std::string ToString() const {
-    const auto n = ColumnCount();
-    const auto m = RowCount();
+    const auto n = RowCount();
+    const auto m = ColumnCount();
 
     // convert all elements to strings and find the widest string in each
     // column.
-- 
2.43.0


From 8c909801bb79db2d315f89d992e2a5a5e69d5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 09/20] fix: refuse port 65536

---
 src/frn/lib/net/connector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index f20f75b..6da4b53 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -249,7 +249,7 @@ class TCPConnector : public Connector {
  * @brief Returns true if a port is valid.
  */
 constexpr inline bool invalid_port(int port) {
-  return port < 1025 || port > 65536;
+  return port < 1025 || port > 65535;
 }
 
 /**
-- 
2.43.0


From e1324b8a45c8719d9b38e8a76cd2b7d0a06c3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 10/20] fix: check the number of addresses against the network
 size on build

---
 src/frn/lib/net/builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frn/lib/net/builder.cc b/src/frn/lib/net/builder.cc
index 41ef815..f5922e1 100644
--- a/src/frn/lib/net/builder.cc
+++ b/src/frn/lib/net/builder.cc
@@ -79,6 +79,10 @@ Network frn::lib::net::Network::Builder::Build() const {
       for (auto& ip : ips) ip = "0.0.0.0";
     } else {
       ips = mIps.value();
+      if (ips.size() != n)
+        throw std::logic_error(
+            "number of entries in connection file "
+            "does not match network size");
     }
 
     int base_port = mBasePort.value_or(Network::kBasePort);
-- 
2.43.0


From 7dded3c1de8b1ade01a200aa5838f775212f9c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 11/20] fix: report a disconnected peer instead of a complete
 receive

---
 src/frn/lib/net/connector.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 2c666fd..73ced19 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -62,8 +62,11 @@ std::int64_t frn::lib::net::TCPConnector::Recv(unsigned char* buffer,
   while (rem > 0) {
     auto n = mSystem->read(mSocket, buffer + offset, rem);
 
-    // other end disconnected.
-    if (!n) break;
+    // other end disconnected before everything was received.
+    if (!n) {
+      mState = Connector::State::eError;
+      throw std::runtime_error("peer disconnected");
+    }
     if (n < 0) set_error_and_throw("recv failed");
 
     rem -= n;
-- 
2.43.0


From 441b79c4bdddd171d4288de357c0e41845528cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 12/20] fix: keep the unread rest of a message sent to oneself

---
 src/frn/lib/net/connector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 6da4b53..44ff8ed 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -177,10 +177,14 @@ class LocalConnector : public Connector {
   };
 
   std::int64_t Recv(unsigned char *buffer, std::size_t size) {
-    auto data = mIncoming->Front();
+    auto &data = mIncoming->Front();
     auto actual_size = std::min(data.size(), size);
-    std::memcpy(buffer, data.data(), actual_size);
-    mIncoming->PopFront();
+    std::copy_n(data.begin(), actual_size, buffer);
+    // keep what was not asked for, so that the next read continues there.
+    if (actual_size < data.size())
+      data.erase(data.begin(), data.begin() + actual_size);
+    else
+      mIncoming->PopFront();
     return actual_size;
   };
 
-- 
2.43.0


From 964eab18a9dd4d743bbb8fc3392a5e3b69a091b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 13/20] fix: transmit everything queued before closing a
 connection

---
 src/frn/lib/net/channel.cc | 19 +++++++++----------
 src/frn/lib/net/channel.h  |  4 +++-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index c6b0a37..7d2a6e5 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -10,9 +10,9 @@ void frn::lib::net::AsyncSenderChannel::Open() {
   mConnector->Connect();
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
-      std::vector<unsigned char> buf = mSendQueue.Front();
-      if (mConnector->State() != Connector::State::eActive) break;
-      mConnector->Send(buf.data(), buf.size());
+      std::optional<std::vector<unsigned char>> buf = mSendQueue.Front();
+      if (!buf) break;
+      mConnector->Send(buf->data(), buf->size());
       mSendQueue.PopFront();
     }
   });
@@ -20,15 +20,14 @@ void frn::lib::net::AsyncSenderChannel::Open() {
 
 void frn::lib::net::AsyncSenderChannel::Send(const unsigned char* buffer,
                                         std::size_t size) {
-  mSendQueue.PushBack({buffer, buffer + size});
+  mSendQueue.PushBack(std::vector<unsigned char>(buffer, buffer + size));
 }
 
 void frn::lib::net::AsyncSenderChannel::Close() {
-  // signal the async job that we're done by closing the connector and then
-  // sending an empty message. The message ensures that sender job will check
-  // if the connector is still alive and thus exit correctly.
-  mConnector->Close();
-  unsigned char dummy = 1;
-  Send(&dummy, 1);
+  // signal the async job that we're done with an end marker. The job stops when
+  // it reaches the marker, i.e., once everything sent before has been handed to
+  // the connector, and only then is the connector closed.
+  mSendQueue.PushBack(std::nullopt);
   mSender.wait();
+  mConnector->Close();
 }
diff --git a/src/frn/lib/net/channel.h b/src/frn/lib/net/channel.h
index e47f272..2546b9c 100644
--- a/src/frn/lib/net/channel.h
+++ b/src/frn/lib/net/channel.h
@@ -3,6 +3,7 @@
 
 #include <future>
 #include <memory>
+#include <optional>
 #include <sstream>
 #include <stdexcept>
 #include <vector>
@@ -112,7 +113,8 @@ class AsyncSenderChannel : public Channel {
   void Send(const unsigned char *buffer, std::size_t size);
 
  private:
-  SharedDeque<std::vector<unsigned char>> mSendQueue;
+  // an empty optional marks the end of the queue.
+  SharedDeque<std::optional<std::vector<unsigned char>>> mSendQueue;
   std::future<void> mSender;
 };
 
-- 
2.43.0


From c9f0fb83949974c5f8e07406bb3a48f0c6c49e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 14/20] fix: make the experiments refuse unsupported party
 counts

---
 src/frn/exp_check.cc | 2 +-
 src/frn/exp_input.cc | 2 +-
 src/frn/exp_mult.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/exp_check.cc b/src/frn/exp_check.cc
index 9b0857f..8a40a73 100644
--- a/src/frn/exp_check.cc
+++ b/src/frn/exp_check.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_input.cc b/src/frn/exp_input.cc
index eecd8a5..2d4c5cb 100644
--- a/src/frn/exp_input.cc
+++ b/src/frn/exp_input.cc
@@ -18,7 +18,7 @@ inline void Populate(std::vector<frn::Field>& vector) {
 }
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_mult.cc b/src/frn/exp_mult.cc
index b8023f5..67ce8b2 100644
--- a/src/frn/exp_mult.cc
+++ b/src/frn/exp_mult.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
-- 
2.43.0


From ffa5938149763a7482b85684436e1c7f748619a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 15/20] fix: validate sharing parameters before computing sizes
 from them

---
 src/frn/lib/secret_sharing/rep.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/frn/lib/secret_sharing/rep.h b/src/frn/lib/secret_sharing/rep.h
index a623357..a1b96ea 100644
--- a/src/frn/lib/secret_sharing/rep.h
+++ b/src/frn/lib/secret_sharing/rep.h
@@ -172,14 +172,13 @@ class Replicator {
    * @param t the privacy threshold
    */
   Replicator(std::size_t n, std::size_t t)
-      : mSize(n),
-        mThreshold(t),
-        mShareSize(Binom(n - 1, t)),
-        mAdditiveShareSize(Binom(n, t)) {
+      : mSize(n), mThreshold(t) {
     if (mSize <= mThreshold)
       throw std::invalid_argument("privacy threshold cannot be larger than n");
     if (!mThreshold)
       throw std::invalid_argument("privacy threshold cannot be 0");
+    mShareSize = Binom(n - 1, t);
+    mAdditiveShareSize = Binom(n, t);
     Init();
   };
 
-- 
2.43.0


From e188f7b58f366238c0f4203e00c70a867a3551ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 16/20] fix: parse decimal strings of any length modulo the
 prime

---
 src/frn/lib/math/fp.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/math/fp.h b/src/frn/lib/math/fp.h
index f9f8929..c3c6c04 100644
--- a/src/frn/lib/math/fp.h
+++ b/src/frn/lib/math/fp.h
@@ -95,9 +95,13 @@ class FpElement : RingElement<FpElement<Prime>> {
    *
    * @param value_string a base 10 string.
    */
-  explicit FpElement(const std::string value_string) {
-    auto const parsed_value = utils::from_string<ValueType>(value_string);
-    mValue = Prime::Reduce(parsed_value);
+  explicit FpElement(const std::string value_string) : mValue(0) {
+    // accumulate in the field since the number might not fit in a ValueType.
+    const FpElement ten = FromConstant<10>();
+    for (const char c : value_string) {
+      *this *= ten;
+      *this += FpElement(utils::from_string<ValueType>(std::string(1, c)));
+    }
   };
 
   /**
-- 
2.43.0


From 17c685a3bfd48eb38f62d281033895e7f416f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 17/20] fix: scale a vector by one of its own entries

---
 src/frn/lib/math/vec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/math/vec.h b/src/frn/lib/math/vec.h
index e03e580..8c783b6 100644
--- a/src/frn/lib/math/vec.h
+++ b/src/frn/lib/math/vec.h
@@ -166,10 +166,12 @@ RingType<T, std::vector<T>> Multiply(const std::vector<T> &left,
  */
 template <typename T>
 RingType<T, std::vector<T> &> ScaleBy(std::vector<T> &vector, const T &scalar) {
+  // the scalar may be an entry of the vector itself.
+  const T factor = scalar;
   auto n = vector.size();
   auto it = vector.begin();
 
-  while (n-- > 0) *(it++) *= scalar;
+  while (n-- > 0) *(it++) *= factor;
 
   return vector;
 }
-- 
2.43.0


From 5d65967f801b28c6b0bb31d07cb6b15c9b803f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 18/20] fix: keep binomial coefficients exact beyond 29 choose
 14

---
 src/frn/lib/secret_sharing/rep.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/frn/lib/secret_sharing/rep.h b/src/frn/lib/secret_sharing/rep.h
index a1b96ea..629b574 100644
--- a/src/frn/lib/secret_sharing/rep.h
+++ b/src/frn/lib/secret_sharing/rep.h
@@ -18,13 +18,13 @@ namespace secret_sharing {
  */
 constexpr std::size_t Binom(const std::size_t m, const std::size_t k) {
   std::size_t end = k > m - k ? m - k : k;
-  std::size_t top = 1;
-  std::size_t bot = 1;
+  std::size_t binom = 1;
+  // after step i this is the binomial coefficient of m and i, so the division
+  // is exact and no intermediate product is larger than needed.
   for (std::size_t i = 1; i <= end; ++i) {
-    top *= (m + 1 - i);
-    bot *= i;
+    binom = binom * (m + 1 - i) / i;
   }
-  return top / bot;
+  return binom;
 }
 
 /**
-- 
2.43.0


From 942fe78b190e7bbb018d3b7636cbb12a2d971612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:22 +0000
Subject: [PATCH 19/20] hook: read-only view of the combined check data
 (FRN_VERIF)

---
 src/frn/check.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frn/check.h b/src/frn/check.h
index 233bc29..dc62221 100644
--- a/src/frn/check.h
+++ b/src/frn/check.h
@@ -191,6 +191,14 @@ class Check {
     STOP_TIMER(ReconstructMsgs);
   };
 
+#ifdef FRN_VERIF
+  // read-only view for the verification harnesses
+  const CompressedCheckData& VerifCompressed() const { return mCompressedCD; };
+  const std::vector<Field>& VerifCoefficients() const {
+    return mRandomCoefficients;
+  };
+#endif
+
  private:
   std::shared_ptr<Network> mNetwork;
   frn::lib::secret_sharing::Replicator<Field> mReplicator;
-- 
2.43.0


From ff2d848a3bbb54fc57f68d18f73406ebb68f2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 20/20] fix: wake every thread waiting for the shared queue

---
 src/frn/lib/net/shared_deque.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/net/shared_deque.h b/src/frn/lib/net/shared_deque.h
index c522885..83469eb 100644
--- a/src/frn/lib/net/shared_deque.h
+++ b/src/frn/lib/net/shared_deque.h
@@ -81,7 +81,8 @@ void SharedDeque<T, Allocator>::PushBack(const T &item) {
   std::unique_lock<std::mutex> lock(mMutex);
   mDeck.push_back(item);
   lock.unlock();
-  mCond.notify_one();
+  // reading does not remove the element, so every waiting thread may proceed.
+  mCond.notify_all();
 }
 
 template <typename T, typename Allocator>
@@ -89,7 +90,8 @@ void SharedDeque<T, Allocator>::PushBack(T &&item) {
   std::unique_lock<std::mutex> lock(mMutex);
   mDeck.push_back(std::move(item));
   lock.unlock();
-  mCond.notify_one();
+  // reading does not remove the element, so every waiting thread may proceed.
+  mCond.notify_all();
 }
 
 template <typename T, typename Allocator>
-- 
2.43.0


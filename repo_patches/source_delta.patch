From 71461aa9b495ee05b3cb90c8827e2dd3823654c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 01/52] fix: include the ConstantResampler and Function headers
 FactoryOp.cpp uses

---
 libs/api/src/FactoryOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index cb51796..32b1184 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -15,6 +15,7 @@
 #include "rtbot/std/And.h"
 #include "rtbot/std/AutoRegressive.h"
 #include "rtbot/std/Constant.h"
+#include "rtbot/std/ConstantResampler.h"
 #include "rtbot/std/CosineResampler.h"
 #include "rtbot/std/Count.h"
 #include "rtbot/std/CumulativeSum.h"
@@ -22,6 +23,7 @@
 #include "rtbot/std/Division.h"
 #include "rtbot/std/EqualTo.h"
 #include "rtbot/std/FiniteImpulseResponse.h"
+#include "rtbot/std/Function.h"
 #include "rtbot/std/GreaterThan.h"
 #include "rtbot/std/GreaterThanStream.h"
 #include "rtbot/std/HermiteResampler.h"
-- 
2.43.0


From a3759d8f294be887d203afe5f3a42769135356bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 02/52] fix: give the Function operator its own JSON key for
 the interpolation method

"type" already names the operator, so every Function read from JSON failed
with "invalid interpolation type".
---
 libs/api/src/FactoryOp.cpp             | 4 ++--
 libs/std/include/rtbot/std/Function.md | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 32b1184..492de4b 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -417,7 +417,7 @@ void to_json(json& j, const Function<T, V>& p) {
   for (const auto& point : p.getPoints()) {
     points_array.push_back({point.first, point.second});
   }
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"type", p.getInterpolationType()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"interpolationType", p.getInterpolationType()}};
 }
 
 template <class T, class V>
@@ -426,7 +426,7 @@ void from_json(const json& j, Function<T, V>& p) {
   for (const auto& point : j["points"]) {
     points.push_back({point[0].get<V>(), point[1].get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolationType", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/std/include/rtbot/std/Function.md b/libs/std/include/rtbot/std/Function.md
index 233e237..698f06b 100644
--- a/libs/std/include/rtbot/std/Function.md
+++ b/libs/std/include/rtbot/std/Function.md
@@ -23,7 +23,7 @@ jsonschema:
         maxItems: 2
         items:
           type: number
-    type:
+    interpolationType:
       type: string
       enum: ["linear", "hermite"]
       default: "linear"
-- 
2.43.0


From bd24698e3e311f7cb0234b1b27d2cd5a547842d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 03/52] fix: let Join re-examine its buffers after discarding
 stale messages

With i1 holding 4, 7, 8 and 5, 8 arriving on i2 the common time 8 was not
emitted until yet another message arrived, and whether it was emitted at all
depended on the arrival order.
---
 libs/core/include/rtbot/Join.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/core/include/rtbot/Join.h b/libs/core/include/rtbot/Join.h
index 1488335..db274c6 100644
--- a/libs/core/include/rtbot/Join.h
+++ b/libs/core/include/rtbot/Join.h
@@ -82,7 +82,12 @@ class Join : public Operator<T, V> {
       }
       return this->emit(toEmit);
     }
-    return {};
+
+    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+      if (it->second.empty()) return {};
+    }
+    // discarding stale messages uncovered a newer synchronization candidate
+    return Join<T, V>::executeData();
   }
 
   virtual OperatorMessage<T, V> processData() {
-- 
2.43.0


From c56981f3f1f55d56bc974fab0999e448fde6b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 04/52] fix: pair Linear coefficients with their ports by
 number

With ten or more coefficients the lexicographic order of the ports paired
i10 with the second coefficient, i2 with the third, and so on.
---
 libs/std/include/rtbot/std/Linear.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/std/include/rtbot/std/Linear.h b/libs/std/include/rtbot/std/Linear.h
index 70b59a9..0242107 100644
--- a/libs/std/include/rtbot/std/Linear.h
+++ b/libs/std/include/rtbot/std/Linear.h
@@ -26,14 +26,14 @@ struct Linear : public Join<T, V> {
 
   OperatorMessage<T, V> processData() override {
     OperatorMessage<T, V> outputMsgs;
-    int i = 0;
     Message<T, V> out;
     out.value = 0;
     out.time = 0;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+    // the ports are stored in lexicographic order (i1, i10, i2, ...), so look them up by number
+    for (size_t i = 0; i < this->coeff.size(); i++) {
+      auto it = this->dataInputs.find(string("i") + to_string(i + 1));
       out.value = out.value + it->second.front().value * this->coeff.at(i);
       out.time = it->second.front().time;
-      i++;
     }
 
     PortMessage<T, V> v;
-- 
2.43.0


From 6e1826f7cca5bf11da9f962c62b535b92598de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 05/52] fix: use the time, not the value, of the other message
 in Difference

---
 libs/std/include/rtbot/std/Difference.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Difference.h b/libs/std/include/rtbot/std/Difference.h
index 35c133d..6c3b75c 100644
--- a/libs/std/include/rtbot/std/Difference.h
+++ b/libs/std/include/rtbot/std/Difference.h
@@ -31,7 +31,7 @@ struct Difference : public Operator<T, V> {
     Message<T, V> m0 = this->getDataInputMessage(inputPort, 0);
     Message<T, V> out;
     out.value = m1.value - m0.value;
-    out.time = (this->useOldestTime) ? m1.time : m0.value;
+    out.time = (this->useOldestTime) ? m1.time : m0.time;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 699138e4de93e38d58c670c902e8b4822daa8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 06/52] fix: restore serialized state without misaligned reads

The state is a packed byte sequence, so reading a size_t, a time or a value
through a cast pointer is undefined and faults on cores without unaligned
access (the Pico target).
---
 libs/api/include/rtbot/Program.h              |  4 ++--
 libs/core/include/rtbot/Input.h               |  4 ++--
 libs/core/include/rtbot/Message.h             | 13 ++++++++++--
 libs/core/include/rtbot/Operator.h            | 20 +++++++++----------
 .../std/include/rtbot/std/ConstantResampler.h |  8 ++++----
 libs/std/include/rtbot/std/CosineResampler.h  |  2 +-
 libs/std/include/rtbot/std/Count.h            |  2 +-
 libs/std/include/rtbot/std/CumulativeSum.h    |  2 +-
 libs/std/include/rtbot/std/Function.h         |  8 ++++----
 libs/std/include/rtbot/std/HermiteResampler.h |  4 ++--
 libs/std/include/rtbot/std/Variable.h         |  4 ++--
 11 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index d3d2f61..3602e2a 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -25,7 +25,7 @@ struct Program {
     // create an iterator
     Bytes::const_iterator bytes_it = bytes.begin();
     // read the size of the program json
-    uint64_t size = *reinterpret_cast<const uint64_t*>(&(*bytes_it));
+    uint64_t size = fromBytes<uint64_t>(bytes_it);
     bytes_it += sizeof(size);
     // read the program json
     program_json = string(bytes_it, bytes_it + size);
@@ -37,7 +37,7 @@ struct Program {
     // load the state of the operators
     while (bytes_it != bytes.end()) {
       // read the size of the operator id
-      size = *reinterpret_cast<const uint64_t*>(&(*bytes_it));
+      size = fromBytes<uint64_t>(bytes_it);
       bytes_it += sizeof(size);
       string opId(bytes_it, bytes_it + size);
       bytes_it += size;
diff --git a/libs/core/include/rtbot/Input.h b/libs/core/include/rtbot/Input.h
index aa544a3..7a90bac 100644
--- a/libs/core/include/rtbot/Input.h
+++ b/libs/core/include/rtbot/Input.h
@@ -48,12 +48,12 @@ struct Input : public Operator<T, V> {
     Operator<T, V>::restore(it);
 
     // Deserialize the lastSent map
-    size_t lastSentSize = *reinterpret_cast<const size_t *>(&(*it));
+    size_t lastSentSize = fromBytes<size_t>(it);
     it += sizeof(lastSentSize);
 
     for (size_t i = 0; i < lastSentSize; i++) {
       // Deserialize the size of the port word
-      size_t portSize = *reinterpret_cast<const size_t *>(&(*it));
+      size_t portSize = fromBytes<size_t>(it);
       it += sizeof(portSize);
       string port(it, it + portSize);
       it += portSize;
diff --git a/libs/core/include/rtbot/Message.h b/libs/core/include/rtbot/Message.h
index c38b594..cfdd9b0 100644
--- a/libs/core/include/rtbot/Message.h
+++ b/libs/core/include/rtbot/Message.h
@@ -1,6 +1,7 @@
 #ifndef MESSAGE_H
 #define MESSAGE_H
 
+#include <cstring>
 #include <map>
 #include <vector>
 
@@ -8,6 +9,14 @@ namespace rtbot {
 
 using Bytes = std::vector<unsigned char>;
 
+// reads a value from a position of a serialized state, which may not be aligned for its type
+template <class R>
+R fromBytes(Bytes::const_iterator it) {
+  R value;
+  std::memcpy(&value, &(*it), sizeof(value));
+  return value;
+}
+
 template <class T, class V>
 struct Message {
   T time;
@@ -37,11 +46,11 @@ struct Message {
 
   void restore(Bytes::const_iterator& it) {
     // Deserialize time
-    time = *reinterpret_cast<const T*>(&(*it));
+    time = fromBytes<T>(it);
     it += sizeof(time);
 
     // Deserialize value
-    value = *reinterpret_cast<const V*>(&(*it));
+    value = fromBytes<V>(it);
     it += sizeof(value);
   }
 };
diff --git a/libs/core/include/rtbot/Operator.h b/libs/core/include/rtbot/Operator.h
index 90de551..1fb1bbe 100644
--- a/libs/core/include/rtbot/Operator.h
+++ b/libs/core/include/rtbot/Operator.h
@@ -106,21 +106,21 @@ class Operator {
 
     void restore(Bytes::const_iterator &it) {
       // Deserialize id
-      size_t idSize = *reinterpret_cast<const size_t *>(&(*it));
+      size_t idSize = fromBytes<size_t>(it);
       it += sizeof(idSize);
       id = string(it, it + idSize);
       it += idSize;
 
       // Deserialize max
-      max = *reinterpret_cast<const size_t *>(&(*it));
+      max = fromBytes<size_t>(it);
       it += sizeof(max);
 
       // Deserialize sum
-      sum = *reinterpret_cast<const V *>(&(*it));
+      sum = fromBytes<V>(it);
       it += sizeof(sum);
 
       // Deserialize deque<Message<T, V>> data
-      size_t dataSize = *reinterpret_cast<const size_t *>(&(*it));
+      size_t dataSize = fromBytes<size_t>(it);
       it += sizeof(dataSize);
 
       for (size_t i = 0; i < dataSize; i++) {
@@ -202,12 +202,12 @@ class Operator {
 
   virtual void restore(Bytes::const_iterator &it) {
     // read the dataInputs size
-    size_t dataInputsSize = *reinterpret_cast<const size_t *>(&(*it));
+    size_t dataInputsSize = fromBytes<size_t>(it);
     it += sizeof(dataInputsSize);
 
     for (size_t i = 0; i < dataInputsSize; i++) {
       // read the size of the port word
-      size_t portSize = *reinterpret_cast<const size_t *>(&(*it));
+      size_t portSize = fromBytes<size_t>(it);
       it += sizeof(portSize);
       string port(it, it + portSize);
       it += portSize;
@@ -219,12 +219,12 @@ class Operator {
     }
 
     // read the controlInputs size
-    size_t controlInputsSize = *reinterpret_cast<const size_t *>(&(*it));
+    size_t controlInputsSize = fromBytes<size_t>(it);
     it += sizeof(controlInputsSize);
 
     for (size_t i = 0; i < controlInputsSize; i++) {
       // read the size of the port word
-      size_t portSize = *reinterpret_cast<const size_t *>(&(*it));
+      size_t portSize = fromBytes<size_t>(it);
       it += sizeof(portSize);
       string port(it, it + portSize);
       it += portSize;
@@ -237,12 +237,12 @@ class Operator {
     }
 
     // read the toProcess size
-    size_t toProcessSize = *reinterpret_cast<const size_t *>(&(*it));
+    size_t toProcessSize = fromBytes<size_t>(it);
     it += sizeof(toProcessSize);
 
     for (size_t i = 0; i < toProcessSize; i++) {
       // read the size of the port word
-      size_t portSize = *reinterpret_cast<const size_t *>(&(*it));
+      size_t portSize = fromBytes<size_t>(it);
       it += sizeof(portSize);
       string port(it, it + portSize);
       it += portSize;
diff --git a/libs/std/include/rtbot/std/ConstantResampler.h b/libs/std/include/rtbot/std/ConstantResampler.h
index 03dc75e..2a826f9 100644
--- a/libs/std/include/rtbot/std/ConstantResampler.h
+++ b/libs/std/include/rtbot/std/ConstantResampler.h
@@ -43,13 +43,13 @@ struct ConstantResampler : public Operator<T, V> {
   virtual void restore(Bytes::const_iterator& it) {
     Operator<T, V>::restore(it);
 
-    dt = *reinterpret_cast<const T*>(&(*it));
+    dt = fromBytes<T>(it);
     it += sizeof(dt);
-    nextEmit = *reinterpret_cast<const T*>(&(*it));
+    nextEmit = fromBytes<T>(it);
     it += sizeof(nextEmit);
-    initiated = *reinterpret_cast<const bool*>(&(*it));
+    initiated = fromBytes<bool>(it);
     it += sizeof(initiated);
-    lastValue = *reinterpret_cast<const V*>(&(*it));
+    lastValue = fromBytes<V>(it);
     it += sizeof(lastValue);
   }
 
diff --git a/libs/std/include/rtbot/std/CosineResampler.h b/libs/std/include/rtbot/std/CosineResampler.h
index b599ff5..74ba874 100644
--- a/libs/std/include/rtbot/std/CosineResampler.h
+++ b/libs/std/include/rtbot/std/CosineResampler.h
@@ -39,7 +39,7 @@ struct CosineResampler : public Operator<T, V> {
   virtual void restore(Bytes::const_iterator &it) {
     Operator<T, V>::restore(it);
     // Deserialize carryOver
-    carryOver = *reinterpret_cast<const T *>(&(*it));
+    carryOver = fromBytes<T>(it);
     it += sizeof(carryOver);
   }
 
diff --git a/libs/std/include/rtbot/std/Count.h b/libs/std/include/rtbot/std/Count.h
index bb4967c..8ef3c37 100644
--- a/libs/std/include/rtbot/std/Count.h
+++ b/libs/std/include/rtbot/std/Count.h
@@ -30,7 +30,7 @@ struct Count : public Operator<T, V> {
   virtual void restore(Bytes::const_iterator &it) {
     Operator<T, V>::restore(it);
     // Deserialize count
-    count = *reinterpret_cast<const size_t *>(&(*it));
+    count = fromBytes<size_t>(it);
     it += sizeof(count);
   }
 
diff --git a/libs/std/include/rtbot/std/CumulativeSum.h b/libs/std/include/rtbot/std/CumulativeSum.h
index adfdefd..c4e5abe 100644
--- a/libs/std/include/rtbot/std/CumulativeSum.h
+++ b/libs/std/include/rtbot/std/CumulativeSum.h
@@ -31,7 +31,7 @@ struct CumulativeSum : public Operator<T, V> {
 
   virtual void restore(Bytes::const_iterator &it) {
     // Deserialize accumulated
-    accumulated = *reinterpret_cast<const V *>(&(*it));
+    accumulated = fromBytes<V>(it);
     it += sizeof(accumulated);
   }
 
diff --git a/libs/std/include/rtbot/std/Function.h b/libs/std/include/rtbot/std/Function.h
index 2b1cf91..584fa72 100644
--- a/libs/std/include/rtbot/std/Function.h
+++ b/libs/std/include/rtbot/std/Function.h
@@ -65,20 +65,20 @@ struct Function : public Operator<T, V> {
     Operator<T, V>::restore(it);
 
     // Deserialize points
-    size_t pointsSize = *reinterpret_cast<const size_t*>(&(*it));
+    size_t pointsSize = fromBytes<size_t>(it);
     it += sizeof(pointsSize);
 
     points.clear();
     for (size_t i = 0; i < pointsSize; i++) {
-      V x = *reinterpret_cast<const V*>(&(*it));
+      V x = fromBytes<V>(it);
       it += sizeof(V);
-      V y = *reinterpret_cast<const V*>(&(*it));
+      V y = fromBytes<V>(it);
       it += sizeof(V);
       points.push_back({x, y});
     }
 
     // Deserialize interpolation type
-    int typeVal = *reinterpret_cast<const int*>(&(*it));
+    int typeVal = fromBytes<int>(it);
     it += sizeof(typeVal);
     type = static_cast<InterpolationType>(typeVal);
   }
diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 2d0c84d..794b85b 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -51,11 +51,11 @@ struct HermiteResampler : public Operator<T, V> {
   virtual void restore(Bytes::const_iterator& it) {
     Operator<T, V>::restore(it);
     // Deserialize carryOver
-    carryOver = *reinterpret_cast<const T*>(&(*it));
+    carryOver = fromBytes<T>(it);
     it += sizeof(carryOver);
 
     // Deserialize hasBefore
-    auto hasBefore = *reinterpret_cast<const bool*>(&(*it));
+    auto hasBefore = fromBytes<bool>(it);
     it += sizeof(hasBefore);
 
     if (hasBefore) {
diff --git a/libs/std/include/rtbot/std/Variable.h b/libs/std/include/rtbot/std/Variable.h
index 40ec486..5afa62f 100644
--- a/libs/std/include/rtbot/std/Variable.h
+++ b/libs/std/include/rtbot/std/Variable.h
@@ -40,11 +40,11 @@ class Variable : public Operator<T, V> {
     Operator<T, V>::restore(it);
 
     // Deserialize value
-    value = *reinterpret_cast<const V *>(&(*it));
+    value = fromBytes<V>(it);
     it += sizeof(value);
 
     // Deserialize initialized
-    initialized = *reinterpret_cast<const bool *>(&(*it));
+    initialized = fromBytes<bool>(it);
     it += sizeof(initialized);
   }
 
-- 
2.43.0


From 9400916ebec9929a432b656aea0c4c1c97f45063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 07/52] fix: include the averages of RelativeStrengthIndex in
 its serialized state

---
 .../rtbot/finance/RelativeStrengthIndex.h     | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 8f2b857..15f2899 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -18,6 +18,30 @@ struct RelativeStrengthIndex : public Operator<T, V> {
     this->addOutput("o1");
   }
 
+  virtual Bytes collect() {
+    Bytes bytes = Operator<T, V>::collect();
+
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageGain),
+                 reinterpret_cast<const unsigned char*>(&prevAverageGain) + sizeof(prevAverageGain));
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageLoss),
+                 reinterpret_cast<const unsigned char*>(&prevAverageLoss) + sizeof(prevAverageLoss));
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&initialized),
+                 reinterpret_cast<const unsigned char*>(&initialized) + sizeof(initialized));
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) {
+    Operator<T, V>::restore(it);
+
+    prevAverageGain = fromBytes<V>(it);
+    it += sizeof(prevAverageGain);
+    prevAverageLoss = fromBytes<V>(it);
+    it += sizeof(prevAverageLoss);
+    initialized = fromBytes<bool>(it);
+    it += sizeof(initialized);
+  }
+
   string typeName() const override { return "RelativeStrengthIndex"; }
 
   OperatorMessage<T, V> processData() override {
@@ -82,10 +106,10 @@ struct RelativeStrengthIndex : public Operator<T, V> {
   }
 
  private:
-  V averageGain;
-  V averageLoss;
-  V prevAverageGain;
-  V prevAverageLoss;
+  V averageGain = 0;
+  V averageLoss = 0;
+  V prevAverageGain = 0;
+  V prevAverageLoss = 0;
   bool initialized = false;
 };
 
-- 
2.43.0


From 99ee39a0365ace1ffeebae1203ba4c9835ad1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 08/52] fix: write the n RelativeStrengthIndex was created with

Its buffer holds n + 1 messages, so every write and read back grew n by one.
---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 492de4b..09c80f5 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -383,7 +383,7 @@ void from_json(const json& j, Identity<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize() - 1}};
 }
 
 template <class T, class V>
-- 
2.43.0


From 239be380a4b50febcc589aeb8c3cafeb33877927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 09/52] fix: give a fresh ConstantResampler a defined state to
 serialize

---
 libs/std/include/rtbot/std/ConstantResampler.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/std/include/rtbot/std/ConstantResampler.h b/libs/std/include/rtbot/std/ConstantResampler.h
index 2a826f9..b782055 100644
--- a/libs/std/include/rtbot/std/ConstantResampler.h
+++ b/libs/std/include/rtbot/std/ConstantResampler.h
@@ -9,10 +9,10 @@ using namespace std;
 
 template <class T, class V>
 struct ConstantResampler : public Operator<T, V> {
-  T dt;            // Time interval between emissions
-  T nextEmit;      // Next time point to emit at
-  bool initiated;  // Whether we've received our first message
-  V lastValue;     // Last value received, used for causal consistency
+  T dt;             // Time interval between emissions
+  T nextEmit = 0;   // Next time point to emit at
+  bool initiated;   // Whether we've received our first message
+  V lastValue = 0;  // Last value received, used for causal consistency
 
   ConstantResampler() = default;
 
-- 
2.43.0


From f9853582e3a75a659b76547817d3b07b211c5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 10/52] fix: include the inner operators of Pipeline and
 Composite in their serialized state

---
 libs/api/include/rtbot/Pipeline.h   | 14 ++++++++++++++
 libs/core/include/rtbot/Composite.h | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index bae4a10..3882680 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -36,6 +36,20 @@ struct Pipeline : public Operator<T, V> {
 
   string typeName() const override { return "Pipeline"; }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    for (auto& [opId, op] : this->all_op) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+    for (auto& [opId, op] : this->all_op) op->restore(it);
+  }
+
   void receiveData(Message<T, V> msg, string inputPort = "") override {
     if (inputPort.empty() && inputs.size() == 1)
       inputPort = inputs.begin()->first;
diff --git a/libs/core/include/rtbot/Composite.h b/libs/core/include/rtbot/Composite.h
index 486ac2d..f6fe6b4 100644
--- a/libs/core/include/rtbot/Composite.h
+++ b/libs/core/include/rtbot/Composite.h
@@ -49,6 +49,20 @@ struct Composite : public Operator<T, V>  // TODO: improve from chain to graph
 
   virtual ~Composite() = default;
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    for (auto& [opId, op] : this->ops) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+    for (auto& [opId, op] : this->ops) op->restore(it);
+  }
+
   string createInput(string id, size_t numPorts = 1) {
     if (this->ops.count(id) == 0 && this->input == nullptr) {
       this->input = make_shared<Input<T, V>>(id, numPorts);
-- 
2.43.0


From 565a86b2229d26884a061e4435363ba9bf0c3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 11/52] fix: do not examine the first interval of
 HermiteResampler twice

When no grid point fell into it the artificial left message was not created,
the next message took the initial branch again and shifted the grid.
---
 libs/std/include/rtbot/std/HermiteResampler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 794b85b..8f92ae8 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -83,6 +83,8 @@ struct HermiteResampler : public Operator<T, V> {
     PortMessage<T, V> toEmit;
 
     if (before.get() == nullptr) {
+      // create the artificial message even if no grid point falls into the first interval
+      this->get(-1, inputPort);
       toEmit = this->lookAt(0, 1, inputPort);
       auto toAdd = this->lookAt(1, 2, inputPort);
       toEmit.insert(toEmit.end(), toAdd.begin(), toAdd.end());
-- 
2.43.0


From b3c52b0f6aa6c1211878421178b0eea76c55d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 12/52] fix: fit the line of HermiteResampler to times relative
 to the first message

The squares of epoch times overflow T, which is undefined when converting
from double and made the artificial left message, and so the first values,
meaningless. It also wrapped when the first time is smaller than a step.
---
 libs/std/include/rtbot/std/HermiteResampler.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 8f92ae8..8c4464a 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -144,12 +144,13 @@ struct HermiteResampler : public Operator<T, V> {
     if (index >= 0)
       return this->getDataInputMessage(inputPort, index);
     else if (before.get() == nullptr) {
-      vector<T> x;
+      vector<V> x;
       vector<V> y;
       V average = 0;
       size_t n = this->getDataInputSize(inputPort);
       for (int i = 0; i < n; i++) {
-        x.push_back(this->getDataInputMessage(inputPort, i).time);
+        // relative to the first message, epoch times squared do not fit in T
+        x.push_back(this->getDataInputMessage(inputPort, i).time - this->getDataInputMessage(inputPort, 0).time);
         y.push_back(this->getDataInputMessage(inputPort, i).value);
       }
       for (size_t i = 1; i < n; i++) {
@@ -159,7 +160,7 @@ struct HermiteResampler : public Operator<T, V> {
       average = average / (n - 1);
       pair<V, V> pair = this->getLineLeastSquares(x, y);
       T time = this->getDataInputMessage(inputPort, 0).time + (index * ((T)average));
-      V value = pair.second * time + pair.first;
+      V value = pair.second * (index * (V)((T)average)) + pair.first;
       before = make_unique<Message<T, V>>(Message<T, V>(time, value));
     }
     return *(before.get());
@@ -173,9 +174,9 @@ struct HermiteResampler : public Operator<T, V> {
       y is the vector of the y-axis
       the coordinates of a point are (x_i;y_i)
   */
-  pair<V, V> getLineLeastSquares(vector<T> x, vector<V> y) {
+  pair<V, V> getLineLeastSquares(vector<V> x, vector<V> y) {
     V sumY = 0, sumXY = 0, n, m;
-    T sumX = 0, sumX2 = 0;
+    V sumX = 0, sumX2 = 0;
     for (size_t i = 0; i < x.size(); i++) {
       sumX = sumX + x.at(i);
       sumY = sumY + y.at(i);
@@ -183,7 +184,7 @@ struct HermiteResampler : public Operator<T, V> {
       sumX2 = sumX2 + pow(x.at(i), 2);
     }
 
-    T denominator = (x.size() * sumX2 - pow(sumX, 2));
+    V denominator = (x.size() * sumX2 - pow(sumX, 2));
 
     if (denominator == 0) {
       m = (V)(y.at(1) - y.at(0)) / (V)(x.at(1) - x.at(0));
-- 
2.43.0


From 4a01440cdbc203974a25732e699544469c3d5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 13/52] fix: reject a zero interval in HermiteResampler and
 CosineResampler

They looped forever on it; ConstantResampler already rejects it.
---
 libs/std/include/rtbot/std/CosineResampler.h  | 2 ++
 libs/std/include/rtbot/std/HermiteResampler.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libs/std/include/rtbot/std/CosineResampler.h b/libs/std/include/rtbot/std/CosineResampler.h
index 74ba874..85888cb 100644
--- a/libs/std/include/rtbot/std/CosineResampler.h
+++ b/libs/std/include/rtbot/std/CosineResampler.h
@@ -20,6 +20,8 @@ struct CosineResampler : public Operator<T, V> {
   CosineResampler() = default;
 
   CosineResampler(string const &id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
+
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", CosineResampler::size);
diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 8c4464a..d927151 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -21,6 +21,8 @@ struct HermiteResampler : public Operator<T, V> {
   HermiteResampler() = default;
 
   HermiteResampler(string const& id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
+
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", HermiteResampler::size);
-- 
2.43.0


From c1b8e65cf8dd3390bc0e4163bf5da4298fd1ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 14/52] fix: keep the time on a zero TimeShift and clamp a
 negative one at 0

T is unsigned in programs, so the tests for a negative shift never held: a
shift beyond 0 wrapped to a huge time, and a zero shift set every time to 0.
---
 libs/std/include/rtbot/std/TimeShift.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/std/include/rtbot/std/TimeShift.h b/libs/std/include/rtbot/std/TimeShift.h
index 587d0bc..0d71e1e 100644
--- a/libs/std/include/rtbot/std/TimeShift.h
+++ b/libs/std/include/rtbot/std/TimeShift.h
@@ -1,7 +1,7 @@
 #ifndef TIMESHIFT_H
 #define TIMESHIFT_H
 
-#include <math.h>
+#include <type_traits>
 
 #include "rtbot/Operator.h"
 
@@ -32,10 +32,10 @@ struct TimeShift : public Operator<T, V> {
     OperatorMessage<T, V> outputMsgs;
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
 
-    out.time = ((this->dt * this->times < 0) && (out.time > abs((double)(this->dt * this->times))) ||
-                (this->dt * this->times > 0))
-                   ? out.time + this->dt * this->times
-                   : 0;
+    // a negative shift wraps around when T is unsigned
+    T shift = this->dt * this->times;
+    bool backwards = (make_signed_t<T>)shift < 0;
+    out.time = (backwards && out.time < (T)(0 - shift)) ? 0 : out.time + shift;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 4e3c3d10a56ab97f1f486a5acdb9c7c951aa4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 15/52] fix: read the whole dt of TimeShift

The default made value() convert it to int, which cut a larger one.
---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 09c80f5..6065445 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", T(1)), j.value("times", 1));
 }
 
 template <class T, class V>
-- 
2.43.0


From 96b105443d7880b9ed62254c07024624ef909d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 16/52] fix: read the default of Variable as a floating point
 number

The default made value() convert it to int, so 0.5 became 0.
---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 6065445..8cb20fc 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", 0));
+  p = Variable<T, V>(j["id"].get<string>(), j.value("value", V(0)));
 }
 
 template <class T, class V>
-- 
2.43.0


From 5aa5e1cb96c590de6284f3ce4482d400c539af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 17/52] fix: reject JSON programs with missing fields instead
 of reading past them

operator[] on a const json with a missing key is undefined; at() throws.
---
 libs/api/src/FactoryOp.cpp | 76 +++++++++++++++++++-------------------
 libs/api/src/Pipeline.cpp  |  4 +-
 libs/api/src/Program.cpp   |  4 +-
 3 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 8cb20fc..f386225 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -58,7 +58,7 @@ void to_json(json& j, const Input<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Input<T, V>& p) {
-  p = Input<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Input<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -68,7 +68,7 @@ void to_json(json& j, const CosineResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CosineResampler<T, V>& p) {
-  p = CosineResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = CosineResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -78,7 +78,7 @@ void to_json(json& j, const HermiteResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, HermiteResampler<T, V>& p) {
-  p = HermiteResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = HermiteResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -88,7 +88,7 @@ void to_json(json& j, const StandardDeviation<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, StandardDeviation<T, V>& p) {
-  p = StandardDeviation<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = StandardDeviation<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -98,7 +98,7 @@ void to_json(json& j, const MovingAverage<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, MovingAverage<T, V>& p) {
-  p = MovingAverage<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = MovingAverage<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -108,7 +108,7 @@ void to_json(json& j, const FiniteImpulseResponse<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, FiniteImpulseResponse<T, V>& p) {
-  p = FiniteImpulseResponse<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = FiniteImpulseResponse<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j["numPorts"].get<size_t>());
+  p = Join<T, V>(j.at("id").get<string>(), j.at("numPorts").get<size_t>());
 }
 
 template <class T, class V>
@@ -128,7 +128,7 @@ void to_json(json& j, const Output<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Output<T, V>& p) {
-  p = Output<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Output<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -138,7 +138,7 @@ void to_json(json& j, const PeakDetector<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, PeakDetector<T, V>& p) {
-  p = PeakDetector<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = PeakDetector<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -148,7 +148,7 @@ void to_json(json& j, const Minus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Minus<T, V>& p) {
-  p = Minus<T, V>(j["id"].get<string>());
+  p = Minus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -158,7 +158,7 @@ void to_json(json& j, const And<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, And<T, V>& p) {
-  p = And<T, V>(j["id"].get<string>());
+  p = And<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -168,7 +168,7 @@ void to_json(json& j, const Or<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Or<T, V>& p) {
-  p = Or<T, V>(j["id"].get<string>());
+  p = Or<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -178,7 +178,7 @@ void to_json(json& j, const GreaterThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThanStream<T, V>& p) {
-  p = GreaterThanStream<T, V>(j["id"].get<string>());
+  p = GreaterThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -188,7 +188,7 @@ void to_json(json& j, const LessThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThanStream<T, V>& p) {
-  p = LessThanStream<T, V>(j["id"].get<string>());
+  p = LessThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -198,7 +198,7 @@ void to_json(json& j, const Division<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Division<T, V>& p) {
-  p = Division<T, V>(j["id"].get<string>());
+  p = Division<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -208,7 +208,7 @@ void to_json(json& j, const Multiplication<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Multiplication<T, V>& p) {
-  p = Multiplication<T, V>(j["id"].get<string>());
+  p = Multiplication<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -218,7 +218,7 @@ void to_json(json& j, const Plus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Plus<T, V>& p) {
-  p = Plus<T, V>(j["id"].get<string>());
+  p = Plus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -228,7 +228,7 @@ void to_json(json& j, const Linear<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Linear<T, V>& p) {
-  p = Linear<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = Linear<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -238,7 +238,7 @@ void to_json(json& j, const AutoRegressive<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, AutoRegressive<T, V>& p) {
-  p = AutoRegressive<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = AutoRegressive<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -248,7 +248,7 @@ void to_json(json& j, const GreaterThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThan<T, V>& p) {
-  p = GreaterThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = GreaterThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -258,7 +258,7 @@ void to_json(json& j, const Constant<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Constant<T, V>& p) {
-  p = Constant<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Constant<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -268,7 +268,7 @@ void to_json(json& j, const Add<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Add<T, V>& p) {
-  p = Add<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Add<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -278,7 +278,7 @@ void to_json(json& j, const LessThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThan<T, V>& p) {
-  p = LessThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = LessThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -288,7 +288,7 @@ void to_json(json& j, const EqualTo<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, EqualTo<T, V>& p) {
-  p = EqualTo<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = EqualTo<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", V(0)));
+  p = Variable<T, V>(j.at("id").get<string>(), j.value("value", V(0)));
 }
 
 template <class T, class V>
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", T(1)), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", T(1)), j.value("times", 1));
 }
 
 template <class T, class V>
@@ -318,7 +318,7 @@ void to_json(json& j, const CumulativeSum<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CumulativeSum<T, V>& p) {
-  p = CumulativeSum<T, V>(j["id"].get<string>());
+  p = CumulativeSum<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -328,7 +328,7 @@ void to_json(json& j, const Count<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Count<T, V>& p) {
-  p = Count<T, V>(j["id"].get<string>());
+  p = Count<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -338,7 +338,7 @@ void to_json(json& j, const Scale<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Scale<T, V>& p) {
-  p = Scale<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Scale<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -348,7 +348,7 @@ void to_json(json& j, const Power<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Power<T, V>& p) {
-  p = Power<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Power<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -358,7 +358,7 @@ void to_json(json& j, const Difference<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>());
+  p = Difference<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -368,7 +368,7 @@ void to_json(json& j, const Demultiplexer<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Demultiplexer<T, V>& p) {
-  p = Demultiplexer<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Demultiplexer<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -378,7 +378,7 @@ void to_json(json& j, const Identity<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Identity<T, V>& p) {
-  p = Identity<T, V>(j["id"].get<string>());
+  p = Identity<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -388,7 +388,7 @@ void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, RelativeStrengthIndex<T, V>& p) {
-  p = RelativeStrengthIndex<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -408,7 +408,7 @@ void to_json(json& j, const ConstantResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, ConstantResampler<T, V>& p) {
-  p = ConstantResampler<T, V>(j["id"].get<string>(), j["interval"].get<T>());
+  p = ConstantResampler<T, V>(j.at("id").get<string>(), j.at("interval").get<T>());
 }
 
 template <class T, class V>
@@ -423,10 +423,10 @@ void to_json(json& j, const Function<T, V>& p) {
 template <class T, class V>
 void from_json(const json& j, Function<T, V>& p) {
   vector<pair<V, V>> points;
-  for (const auto& point : j["points"]) {
-    points.push_back({point[0].get<V>(), point[1].get<V>()});
+  for (const auto& point : j.at("points")) {
+    points.push_back({point.at(0).get<V>(), point.at(1).get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolationType", "linear"));
+  p = Function<T, V>(j.at("id").get<string>(), points, j.value("interpolationType", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/api/src/Pipeline.cpp b/libs/api/src/Pipeline.cpp
index dccf6ea..6688242 100644
--- a/libs/api/src/Pipeline.cpp
+++ b/libs/api/src/Pipeline.cpp
@@ -28,7 +28,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 template<class T, class V>
@@ -41,7 +41,7 @@ Pipeline<T,V>::Pipeline(string const& id, const string& json_prog_)
 
     for (const json& x : j.at("operators")) {
       pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-      it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+      it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
     }
 
     // make connections, save the used in/out ports
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 09443ce..11a5c6e 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -30,7 +30,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 Program::Program(const string& json_string) {
@@ -51,7 +51,7 @@ void Program::init() {
 
   for (const json& x : j.at("operators")) {
     pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-    it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+    it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
   }
 
   // connections
-- 
2.43.0


From 7f9e4c153b8d7a7069b82571719f4db91de953c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 18/52] fix: default numPorts of Join to 2, as its schema says

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index f386225..4f2dc2a 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j.at("id").get<string>(), j.at("numPorts").get<size_t>());
+  p = Join<T, V>(j.at("id").get<string>(), j.value("numPorts", size_t(2)));
 }
 
 template <class T, class V>
-- 
2.43.0


From 8dca4e0a8701316c2952e929a4f68f25caa98b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 19/52] fix: throw when the entry operator is missing or has
 control inputs

The exceptions were created but not thrown, so a program without operators was
reported as created, or at() failed with an unrelated out_of_range.
---
 libs/api/src/Program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 11a5c6e..b53b928 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -65,14 +65,14 @@ void Program::init() {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator was not found");
+    throw runtime_error("Entry operator was not found");
   }
 
   if (this->all_op.at(this->entryOperator)->hasControlInputs()) {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator can not have control inputs");
+    throw runtime_error("Entry operator can not have control inputs");
   }
 }
 
-- 
2.43.0


From d4d98f9dcb8f40751e5ea7684dd222a095c405ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 20/52] fix: drop the buffered messages of a deleted program

They were processed by the next program created under the same id.
---
 libs/api/include/rtbot/FactoryOp.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 9449778..8153857 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -63,7 +63,10 @@ class FactoryOp {
 
   string createProgram(string const& id, string const& json_program);
 
-  bool deleteProgram(string const& id) { return (programs.erase(id) == 1) ? true : false; }
+  bool deleteProgram(string const& id) {
+    messageBuffer.erase(id);
+    return (programs.erase(id) == 1) ? true : false;
+  }
 
   bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
-- 
2.43.0


From 847dd50f37bf55569c931e202955c34b2506eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 21/52] fix: reject an AutoRegressive without coefficients

It filled its buffer of unlimited size until memory ran out.
---
 libs/std/include/rtbot/std/AutoRegressive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index b40ce25..6042d8c 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -14,6 +14,7 @@ struct AutoRegressive : public Operator<T, V> {
   AutoRegressive() = default;
 
   AutoRegressive(string const& id, vector<V> const& coeff) : Operator<T, V>(id) {
+    if (coeff.empty()) throw runtime_error(typeName() + ": at least 1 coefficient is required");
     this->coeff = coeff;
     this->addDataInput("i1", this->coeff.size());
     this->addOutput("o1");
-- 
2.43.0


From 91a0945f0767e97f3b3c1d1731cfcff4605c8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 22/52] fix: empty the message buffer even if processing it
 throws

A message for a port that does not exist stayed in the buffer, so the batch
was processed again, and failed again, on every later call.
---
 libs/api/include/rtbot/FactoryOp.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 8153857..2f6d6ce 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -78,9 +78,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMap(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // take the messages out first, they must not be processed again if this throws
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMap(apId, messages);
         if (!result.empty()) return result;
       }
     }
@@ -91,9 +92,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMapDebug(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // take the messages out first, they must not be processed again if this throws
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMapDebug(apId, messages);
         if (!result.empty()) return result;
       }
     }
-- 
2.43.0


From c216ec783c760e285fb5975d15e392fe355a40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 23/52] fix: report an error when a JSON program is created
 under a used id

Success was returned although the new program was dropped.
---
 libs/api/src/FactoryOp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 4f2dc2a..3613291 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -443,6 +443,7 @@ string FactoryOp::createProgram(string const& id, Bytes const& bytes) {
 }
 
 string FactoryOp::createProgram(string const& id, string const& json_program) {
+  if (this->programs.count(id) > 0) return json({{"error", "Program " + id + " already exists"}}).dump();
   try {
     programs.emplace(id, Program(json_program));
     return "";
-- 
2.43.0


From 318e3aa4aca04d314a4cc966ab6dc7d6b3879fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 24/52] fix: write the entry operator of a Python program that
 has no date

---
 libs/wrappers/python/rtbot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 0aa8100..75f21fb 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -107,7 +107,7 @@ class Program:
         if self.date:
             obj["date"] = self.date
 
-        if self.date:
+        if self.entryOperator:
             obj["entryOperator"] = self.entryOperator
 
         return json.dumps(obj)
-- 
2.43.0


From c18112bf9b9977840f82055b6e881ee2cc56abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 25/52] fix: delete only the requested connection in the
 JavaScript Program

It kept the connection asked for, and dropped the ones that differ from it in
all four fields.
---
 libs/wrappers/javascript/src/program.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/javascript/src/program.ts b/libs/wrappers/javascript/src/program.ts
index 235cf55..10a0e17 100644
--- a/libs/wrappers/javascript/src/program.ts
+++ b/libs/wrappers/javascript/src/program.ts
@@ -62,7 +62,7 @@ export class Program {
   deleteConnection(opFrom: OperatorId, opTo: OperatorId, opFromPort: PortId = "o1", opToPort: PortId = "i1") {
     this.connections = this.connections.filter(
       ({ from, to, fromPort, toPort }) =>
-        !(from !== opFrom && to !== opTo && fromPort !== opFromPort && toPort !== opToPort)
+        !(from === opFrom && to === opTo && fromPort === opFromPort && toPort === opToPort)
     );
   }
 
-- 
2.43.0


From 23f2ce3f579ccacf661397db4b8d8cf502364812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 26/52] fix: AutoRegressive applies its first coefficient to
 the most recent output, as documented

---
 libs/std/include/rtbot/std/AutoRegressive.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index 6042d8c..aa88c8c 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -61,7 +61,8 @@ struct AutoRegressive : public Operator<T, V> {
       throw runtime_error(typeName() + " : more than 1 input port found");
     size_t n = this->getDataInputMaxSize(inputPort);
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
-    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, i).value;
+    // the first coefficient multiplies the most recent output, i.e. the last one before the received message
+    for (size_t i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, n - 1 - i).value;
     OperatorMessage<T, V> toEmit;
     PortMessage<T, V> v;
     v.push_back(out);
-- 
2.43.0


From 65be1c61ef94c4f019833dd1e3ffa624c977b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 27/52] fix: Function scales the Hermite tangents to the width
 of the interval

---
 libs/std/include/rtbot/std/Function.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libs/std/include/rtbot/std/Function.h b/libs/std/include/rtbot/std/Function.h
index 584fa72..620eecc 100644
--- a/libs/std/include/rtbot/std/Function.h
+++ b/libs/std/include/rtbot/std/Function.h
@@ -112,16 +112,11 @@ struct Function : public Operator<T, V> {
       }
     } else {
       if (i == 0 && x < points[0].first) {
-        msg.value = hermiteInterpolate(points[0].second, points[1].second, getTangent(0), getTangent(1),
-                                       (x - points[0].first) / (points[1].first - points[0].first));
+        msg.value = hermiteInterpolate(0, x);
       } else if (i >= points.size() - 2) {
-        size_t last = points.size() - 1;
-        msg.value =
-            hermiteInterpolate(points[last - 1].second, points[last].second, getTangent(last - 1), getTangent(last),
-                               (x - points[last - 1].first) / (points[last].first - points[last - 1].first));
+        msg.value = hermiteInterpolate(points.size() - 2, x);
       } else {
-        msg.value = hermiteInterpolate(points[i].second, points[i + 1].second, getTangent(i), getTangent(i + 1),
-                                       (x - points[i].first) / (points[i + 1].first - points[i].first));
+        msg.value = hermiteInterpolate(i, x);
       }
     }
 
@@ -151,6 +146,13 @@ struct Function : public Operator<T, V> {
     return h00 * y0 + h10 * m0 + h01 * y1 + h11 * m1;
   }
 
+  // interpolates between the points i and i + 1, the tangents are scaled to the width of that interval
+  V hermiteInterpolate(size_t i, V x) const {
+    V width = points[i + 1].first - points[i].first;
+    return hermiteInterpolate(points[i].second, points[i + 1].second, getTangent(i) * width, getTangent(i + 1) * width,
+                              (x - points[i].first) / width);
+  }
+
   V getTangent(size_t i) const {
     if (i == 0) {
       return (points[1].second - points[0].second) / (points[1].first - points[0].first);
-- 
2.43.0


From 02a0da549afe960295367a80d3214d0b38431c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 28/52] fix: Pipeline accepts operator ids containing a colon

---
 libs/api/include/rtbot/Pipeline.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index 3882680..947bd6a 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -82,11 +82,9 @@ struct Pipeline : public Operator<T, V> {
 
  private:
   static auto split2(string const& s, char delim = ':') {
-    std::istringstream is(s);
-    string word1, word2;
-    getline(is, word1, delim);
-    getline(is, word2, char(0));
-    return make_pair(word1, word2);
+    // the operator id may contain the delimiter, the port does not
+    auto pos = s.rfind(delim);
+    return make_pair(s.substr(0, pos), s.substr(pos + 1));
   }
 };
 
-- 
2.43.0


From b8aacadf86052309c5ee1bd0f4ab7af6998921a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 29/52] fix: MovingAverage and StandardDeviation sum their
 window, a running sum stays wrong after large or non finite values

---
 libs/std/include/rtbot/std/MovingAverage.h     | 6 +++++-
 libs/std/include/rtbot/std/StandardDeviation.h | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/std/include/rtbot/std/MovingAverage.h b/libs/std/include/rtbot/std/MovingAverage.h
index 4d26cca..4dd7b05 100644
--- a/libs/std/include/rtbot/std/MovingAverage.h
+++ b/libs/std/include/rtbot/std/MovingAverage.h
@@ -30,7 +30,11 @@ struct MovingAverage : public Operator<T, V> {
     Message<T, V> out;
 
     out.time = this->getDataInputLastMessage(inputPort).time;
-    out.value = this->getDataInputSum(inputPort) / this->getDataInputSize(inputPort);
+    // sum the window itself, a running sum never recovers from the rounding errors, infinities or NaNs it absorbed
+    size_t size = this->getDataInputSize(inputPort);
+    V sum = 0;
+    for (size_t i = 0; i < size; i++) sum = sum + this->dataInputs.find(inputPort)->second.at(i).value;
+    out.value = sum / size;
 
     toEmit.push_back(out);
     outputMsgs.emplace("o1", toEmit);
diff --git a/libs/std/include/rtbot/std/StandardDeviation.h b/libs/std/include/rtbot/std/StandardDeviation.h
index 05d7c15..128c017 100644
--- a/libs/std/include/rtbot/std/StandardDeviation.h
+++ b/libs/std/include/rtbot/std/StandardDeviation.h
@@ -34,7 +34,10 @@ struct StandardDeviation : public Operator<T, V> {
     Message<T, V> out;
     size_t size = this->getDataInputSize(inputPort);
 
-    V average = this->getDataInputSum(inputPort) / size;
+    // sum the window itself, a running sum never recovers from the rounding errors, infinities or NaNs it absorbed
+    V average = 0;
+    for (size_t j = 0; j < size; j++) average = average + this->getDataInputMessage(inputPort, j).value;
+    average = average / size;
     V std = 0;
 
     for (size_t j = 0; j < size; j++) {
-- 
2.43.0


From 1baef139c5274eab0dc730ccbb6eae097294cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 30/52] fix: refuse empty windows and port numbers below 1,
 they meant an unlimited buffer or wrapped around

---
 libs/api/src/FactoryOp.cpp                    | 27 +++++++++++++------
 .../include/rtbot/std/FiniteImpulseResponse.h |  1 +
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 3613291..b27cfa1 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -51,6 +51,17 @@ using namespace std;
 
 /* Operators serialization - deserialization - begin */
 
+/// reads a number of ports or the size of a window: 0 would mean an unlimited buffer and a negative number wraps around
+static size_t positiveSize(const json& j, const string& key) {
+  auto n = j.at(key).get<int64_t>();
+  if (n < 1) throw runtime_error(key + " has to be greater than or equal 1");
+  return n;
+}
+
+static size_t positiveSize(const json& j, const string& key, size_t defaultSize) {
+  return j.count(key) > 0 ? positiveSize(j, key) : defaultSize;
+}
+
 template <class T, class V>
 void to_json(json& j, const Input<T, V>& p) {
   j = json{{"type", p.typeName()}, {"id", p.id}, {"numPorts", p.getNumPorts()}};
@@ -58,7 +69,7 @@ void to_json(json& j, const Input<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Input<T, V>& p) {
-  p = Input<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
+  p = Input<T, V>(j.at("id").get<string>(), positiveSize(j, "numPorts", 1));
 }
 
 template <class T, class V>
@@ -88,7 +99,7 @@ void to_json(json& j, const StandardDeviation<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, StandardDeviation<T, V>& p) {
-  p = StandardDeviation<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = StandardDeviation<T, V>(j.at("id").get<string>(), positiveSize(j, "n"));
 }
 
 template <class T, class V>
@@ -98,7 +109,7 @@ void to_json(json& j, const MovingAverage<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, MovingAverage<T, V>& p) {
-  p = MovingAverage<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = MovingAverage<T, V>(j.at("id").get<string>(), positiveSize(j, "n"));
 }
 
 template <class T, class V>
@@ -118,7 +129,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j.at("id").get<string>(), j.value("numPorts", size_t(2)));
+  p = Join<T, V>(j.at("id").get<string>(), positiveSize(j, "numPorts", 2));
 }
 
 template <class T, class V>
@@ -128,7 +139,7 @@ void to_json(json& j, const Output<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Output<T, V>& p) {
-  p = Output<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
+  p = Output<T, V>(j.at("id").get<string>(), positiveSize(j, "numPorts", 1));
 }
 
 template <class T, class V>
@@ -138,7 +149,7 @@ void to_json(json& j, const PeakDetector<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, PeakDetector<T, V>& p) {
-  p = PeakDetector<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = PeakDetector<T, V>(j.at("id").get<string>(), positiveSize(j, "n"));
 }
 
 template <class T, class V>
@@ -368,7 +379,7 @@ void to_json(json& j, const Demultiplexer<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Demultiplexer<T, V>& p) {
-  p = Demultiplexer<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
+  p = Demultiplexer<T, V>(j.at("id").get<string>(), positiveSize(j, "numPorts", 1));
 }
 
 template <class T, class V>
@@ -388,7 +399,7 @@ void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, RelativeStrengthIndex<T, V>& p) {
-  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), positiveSize(j, "n"));
 }
 
 template <class T, class V>
diff --git a/libs/std/include/rtbot/std/FiniteImpulseResponse.h b/libs/std/include/rtbot/std/FiniteImpulseResponse.h
index 22a2296..3bab806 100644
--- a/libs/std/include/rtbot/std/FiniteImpulseResponse.h
+++ b/libs/std/include/rtbot/std/FiniteImpulseResponse.h
@@ -12,6 +12,7 @@ struct FiniteImpulseResponse : public Operator<T, V> {
   FiniteImpulseResponse() = default;
 
   FiniteImpulseResponse(string const& id, vector<V> coeff) : Operator<T, V>(id) {
+    if (coeff.empty()) throw runtime_error(typeName() + ": at least 1 coefficient is required");
     this->addDataInput("i1", coeff.size());
     this->addOutput("o1");
     this->coeff = coeff;
-- 
2.43.0


From aa671653e4b56c3b1ef836397b0befb72919869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 31/52] fix: the entry ports are listed by number, rows were
 sent to the wrong ports from 10 ports on

---
 libs/api/include/rtbot/Program.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index 3602e2a..eda3ad4 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -62,7 +62,10 @@ struct Program {
     if (this->all_op.count(this->entryOperator) == 0)
       throw runtime_error("Entry operator " + this->entryOperator + " was not found");
 
-    return this->all_op.at(entryOperator)->getDataInputs();
+    // order the ports by number, i.e. i2 before i10
+    auto ports = this->all_op.at(entryOperator)->getDataInputs();
+    stable_sort(ports.begin(), ports.end(), [](string const& a, string const& b) { return a.size() < b.size(); });
+    return ports;
   }
 
   map<string, vector<string>> getProgramOutputFilter() { return this->outputFilter; }
-- 
2.43.0


From 62aef28e4fa71b274e0809764144530be62975a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 32/52] fix: a Python run deletes its program when a row is
 refused and reports why a program was not created

---
 libs/wrappers/python/rtbot.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 75f21fb..dbfeefb 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -18,6 +18,16 @@ class Run(object):
 
     def exec(self):
         result = api.createProgram(self.program.id, self.program.toJson())
+        if result != "":
+            raise Exception(json.loads(result)["error"])
+
+        # delete the program even if some row is refused
+        try:
+            return self._send()
+        finally:
+            api.deleteProgram(self.program.id)
+
+    def _send(self):
         # TODO: here we assume that the data is a list of rows, which are a list
         # of numbers, where the first element of the row is the time and the remaining
         # ones correspond to the values passed to the ports and they have the order according
@@ -25,9 +35,6 @@ class Run(object):
         # Move this to receive a pandas dataframe instead
         ports = json.loads(api.getProgramEntryPorts(self.program.id))
 
-        if result != "":
-            raise Exception(json.loads(result)["error"])
-
         result = {}
 
         for row in self.data:
@@ -46,7 +53,6 @@ class Run(object):
                         result[key]["time"].append(int(msg.get("time")))
                         result[key]["value"].append(float(msg.get("value")))
 
-        api.deleteProgram(self.program.id)
         return result
 
 
-- 
2.43.0


From 42b73a7137bc68639d713a5a7a1aa609d76c963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 33/52] fix: report a port that the output declares twice only
 once

---
 libs/api/include/rtbot/Program.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index eda3ad4..875f1ad 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -86,7 +86,7 @@ struct Program {
             opReturn.emplace(op->second.at(i), outResults.at(op->second.at(i)));
             if (toReturn.count(op->first) == 0)
               toReturn.emplace(op->first, opReturn);
-            else
+            else if (toReturn.at(op->first).count(op->second.at(i)) == 0)  // a port declared twice is reported once
               Operator<uint64_t, double>::mergeOutput(toReturn[op->first], opReturn);
           }
         }
-- 
2.43.0


From 6c90046a44d92039b54564fdf78d0dd47cdc72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 34/52] fix: refuse negative intervals of resamplers

---
 libs/api/src/FactoryOp.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index b27cfa1..fbeb62a 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -51,7 +51,8 @@ using namespace std;
 
 /* Operators serialization - deserialization - begin */
 
-/// reads a number of ports or the size of a window: 0 would mean an unlimited buffer and a negative number wraps around
+/// reads a number of ports, an interval or the size of a window: 0 would mean an unlimited buffer and a negative number
+/// wraps around
 static size_t positiveSize(const json& j, const string& key) {
   auto n = j.at(key).get<int64_t>();
   if (n < 1) throw runtime_error(key + " has to be greater than or equal 1");
@@ -79,7 +80,7 @@ void to_json(json& j, const CosineResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CosineResampler<T, V>& p) {
-  p = CosineResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
+  p = CosineResampler<T, V>(j.at("id").get<string>(), positiveSize(j, "dt"));
 }
 
 template <class T, class V>
@@ -89,7 +90,7 @@ void to_json(json& j, const HermiteResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, HermiteResampler<T, V>& p) {
-  p = HermiteResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
+  p = HermiteResampler<T, V>(j.at("id").get<string>(), positiveSize(j, "dt"));
 }
 
 template <class T, class V>
@@ -419,7 +420,7 @@ void to_json(json& j, const ConstantResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, ConstantResampler<T, V>& p) {
-  p = ConstantResampler<T, V>(j.at("id").get<string>(), j.at("interval").get<T>());
+  p = ConstantResampler<T, V>(j.at("id").get<string>(), positiveSize(j, "interval"));
 }
 
 template <class T, class V>
-- 
2.43.0


From 7f17976cb1718e648b8557655bc119d8ff91d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 35/52] fix: refuse integer parameters beyond their range

---
 libs/api/src/FactoryOp.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index fbeb62a..c6ddcc1 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -51,10 +51,16 @@ using namespace std;
 
 /* Operators serialization - deserialization - begin */
 
+/// reads an integer, the conversion of a floating point number beyond its range would be undefined
+static int64_t integer(const json& j, const string& key) {
+  if (j.at(key).is_number_float() && !(abs(j.at(key).get<double>()) < 9e18)) throw runtime_error(key + " is out of range");
+  return j.at(key).get<int64_t>();
+}
+
 /// reads a number of ports, an interval or the size of a window: 0 would mean an unlimited buffer and a negative number
 /// wraps around
 static size_t positiveSize(const json& j, const string& key) {
-  auto n = j.at(key).get<int64_t>();
+  auto n = integer(j, key);
   if (n < 1) throw runtime_error(key + " has to be greater than or equal 1");
   return n;
 }
@@ -320,7 +326,8 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", T(1)), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), j.count("dt") > 0 ? integer(j, "dt") : 1,
+                      j.count("times") > 0 ? integer(j, "times") : 1);
 }
 
 template <class T, class V>
-- 
2.43.0


From e1415b874d8acfba2aa726d05c97478087f6f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 36/52] fix: quote the default values of strings in the
 generated Python operators

---
 tools/generator/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 62b1033..c887f6c 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -160,7 +160,7 @@ program
             .filter((p) => p !== "type")
             .map((k) => ({
               name: k,
-              init: s.required.indexOf(k) > -1 ? "" : ` = ${s.properties[k].default ?? "None"}`,
+              init: s.required.indexOf(k) > -1 ? "" : ` = ${JSON.stringify(s.properties[k].default) ?? "None"}`,
             })),
         })),
       });
-- 
2.43.0


From 5ca4fbe0cd0ec2e3215cdc18aaf871b8cf21d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 37/52] fix: do not escape the quotes of the types in the
 generated TypeScript operators

---
 tools/generator/templates/typescript.hbs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/templates/typescript.hbs b/tools/generator/templates/typescript.hbs
index dc7e0d3..a13be55 100644
--- a/tools/generator/templates/typescript.hbs
+++ b/tools/generator/templates/typescript.hbs
@@ -33,7 +33,7 @@ export type {{ name }} = {
 export class {{ type }} extends Operator {
   readonly type = "{{ type}}";
   constructor(
-{{ parametersBlock }}
+{{{ parametersBlock }}}
   ) {
     super(id);
     const schema = {{{ schema }}}
-- 
2.43.0


From 790225ba1adc23e36756e09e2cda8e6faf113057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 38/52] fix: the Python module picks the createProgram that
 reads text, it is overloaded

---
 libs/wrappers/python/rtbot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.cpp b/libs/wrappers/python/rtbot.cpp
index ba9dbb5..caa3fbe 100644
--- a/libs/wrappers/python/rtbot.cpp
+++ b/libs/wrappers/python/rtbot.cpp
@@ -20,7 +20,7 @@ PYBIND11_MODULE(rtbotapi, m) {
   m.def("validate", &validate, "Validates json representation of an rtbot program");
   m.def("validateOperator", &validateOperator, "Validates a json representation of an rtbot operator");
 
-  m.def("createProgram", &createProgram, "Register an rtbot program in memory");
+  m.def("createProgram", static_cast<string (*)(string const&, string const&)>(&createProgram), "Register an rtbot program in memory");
   m.def("deleteProgram", &deleteProgram, "Deletes and frees the memory of a previsouly created rtbot program");
   
   m.def("addToMessageBuffer", &addToMessageBuffer);
-- 
2.43.0


From 82bf68b20f976b38cddad87f1bebe2adc685edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 39/52] fix: the wasm module picks the createProgram that reads
 text, it is overloaded

---
 libs/api/wasm/emscripten-bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/wasm/emscripten-bindings.cpp b/libs/api/wasm/emscripten-bindings.cpp
index 8326827..945786f 100644
--- a/libs/api/wasm/emscripten-bindings.cpp
+++ b/libs/api/wasm/emscripten-bindings.cpp
@@ -56,7 +56,7 @@ EMSCRIPTEN_BINDINGS(RtBot) {
   emscripten::function("validate", &validate);
   emscripten::function("validateOperator", &validateOperator);
 
-  emscripten::function("createProgram", &createProgram);
+  emscripten::function("createProgram", static_cast<string (*)(string const&, string const&)>(&createProgram));
   emscripten::function("deleteProgram", &deleteProgram);
 
   emscripten::function("addToMessageBuffer", &addToMessageBuffer);
-- 
2.43.0


From 449ff27958de5d4e307155ecc59b76f67c55bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 40/52] fix: the Python run accepts values which are no finite
 numbers

---
 libs/wrappers/python/rtbot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index dbfeefb..befa453 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -51,7 +51,11 @@ class Run(object):
                         result[key] = {"time": [], "value": []}
                     for msg in msgs:
                         result[key]["time"].append(int(msg.get("time")))
-                        result[key]["value"].append(float(msg.get("value")))
+                        # json has no infinities nor nan, they arrive as null
+                        value = msg.get("value")
+                        result[key]["value"].append(
+                            float("nan") if value is None else float(value)
+                        )
 
         return result
 
-- 
2.43.0


From df7afa2a175aac47b26e24a018eacfe646dbf7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 41/52] fix: the JavaScript run deletes its program when a row
 is refused

---
 libs/wrappers/javascript/src/api.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index a1866f0..fbf1c9a 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -109,6 +109,16 @@ export class RtBotRun {
       if (createProgramResponse.error) throw new Error(createProgramResponse.error);
     }
 
+    // delete the program even if some row is refused
+    try {
+      await this.send();
+    } finally {
+      await RtBot.getInstance().deleteProgram(this.program.programId);
+    }
+    if (this.verbose) console.log("Done!", this.outputs);
+  }
+
+  private async send() {
     if (this.verbose) console.log("Sending data...");
     const entryPorts: string[] = JSON.parse(await RtBot.getInstance().getProgramEntryPorts(this.program.programId));
     // iterate over the data passed and send it to the rtbot program
@@ -146,9 +156,6 @@ export class RtBotRun {
         }
       }
     }
-
-    await RtBot.getInstance().deleteProgram(this.program.programId);
-    if (this.verbose) console.log("Done!", this.outputs);
   }
 
   getOutputs() {
-- 
2.43.0


From 552e548acb197cd7b2dd433d8b5e08909f8ddef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 42/52] fix: the debug command passes verbose as the progress
 callback, a verbose run of 20 rows or more fails

---
 apps/cli/src/commands/debug.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/commands/debug.ts b/apps/cli/src/commands/debug.ts
index 226b27a..8944d91 100644
--- a/apps/cli/src/commands/debug.ts
+++ b/apps/cli/src/commands/debug.ts
@@ -94,7 +94,7 @@ export const registerDebug = (program: Command) => {
           }
         })
         .filter((r) => r.length === 2);
-      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, verbose);
+      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, undefined, verbose);
       try {
         await rtbotRun.run();
       } catch (e: any) {
-- 
2.43.0


From dbdc04d2b3be6653a1cf4a3df995ab6ba279091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 43/52] fix: the debugger's table stops at the last row instead
 of reading past it

---
 apps/cli/src/tui/store.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 21eed9d..344c5c8 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -81,7 +81,7 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
           columns: [headers],
         };
 
-      for (let i = iteration - 1; i < Math.min(iteration, maxIteration) + 10; i++) {
+      for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
         const row = opHeaders.map((h) => {
           const [opId, port] = h.split(":");
-- 
2.43.0


From 96e5204e827adea7b53feb9b2b5992dc13638250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 44/52] fix: the debugger's table shows operators that emit on
 some of their ports only

---
 apps/cli/src/tui/store.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 344c5c8..45e8f75 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -87,9 +87,11 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
           const [opId, port] = h.split(":");
           if (opId && r.out[opId]) {
             const opOutput = r.out[opId]!;
-            return opOutput[port ?? "o1"]!.map(
-              ({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`
-            ).join(", ");
+            return (
+              opOutput[port ?? "o1"]
+                ?.map(({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`)
+                .join(", ") ?? "-"
+            );
           }
           return "-";
         });
-- 
2.43.0


From 11b011b9fa4d9ad2783fe2195ca68b6a534a4f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 45/52] fix: the debugger's table shows operators whose id
 contains a colon

---
 apps/cli/src/tui/store.ts | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 45e8f75..9e9867e 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -69,11 +69,8 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
       const rows = [];
       const { iteration, maxIteration } = state;
 
-      const opHeaders = operators.reduce(
-        (acc: string[], op: DebuggerOperatorDef) =>
-          op.ports.length > 1 ? [...acc, ...op.ports.map((p) => `${op.id}:${p}`)] : [...acc, op.id],
-        []
-      );
+      const outputs = operators.flatMap((op: DebuggerOperatorDef) => op.ports.map((port) => ({ op, port })));
+      const opHeaders = outputs.map(({ op, port }) => (op.ports.length > 1 ? `${op.id}:${port}` : op.id));
       const headers = ["iter", ...opHeaders];
 
       if (iteration === 0)
@@ -83,18 +80,12 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
 
       for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
-        const row = opHeaders.map((h) => {
-          const [opId, port] = h.split(":");
-          if (opId && r.out[opId]) {
-            const opOutput = r.out[opId]!;
-            return (
-              opOutput[port ?? "o1"]
-                ?.map(({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`)
-                .join(", ") ?? "-"
-            );
-          }
-          return "-";
-        });
+        const row = outputs.map(
+          ({ op, port }) =>
+            r.out[op.id]?.[port]
+              ?.map(({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`)
+              .join(", ") ?? "-"
+        );
         rows.push([`${i}`, ...row]);
       }
       return {
-- 
2.43.0


From 719c19f8608180d9cf041dceaa61db091e9e86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 46/52] fix: the debugger's table shows the second port of a
 join without numPorts

---
 apps/cli/src/tui/store.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 9e9867e..25d401f 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -49,11 +49,10 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
         id: op.id,
         type: op.type,
         selected: true,
-        ports: op.numPorts
-          ? Array(op.numPorts)
-              .fill(1)
-              .map((_, i) => `o${i + 1}`)
-          : ["o1"],
+        // a join has two ports unless told otherwise, other operators have one
+        ports: Array(op.numPorts ?? (op.type === "Join" ? 2 : 1))
+          .fill(1)
+          .map((_, i) => `o${i + 1}`),
       })),
     })),
   updateOperator: (id: string, selected: boolean) =>
-- 
2.43.0


From 96e6f2d61c5c9e2a29f6ec31afc09a9283feb9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 47/52] fix: deleting the pipelines of an input key waits for
 the lock it holds

---
 apps/rtbot-rs/src/pipelines_registry.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/apps/rtbot-rs/src/pipelines_registry.rs b/apps/rtbot-rs/src/pipelines_registry.rs
index 7eadfd7..f5945f5 100644
--- a/apps/rtbot-rs/src/pipelines_registry.rs
+++ b/apps/rtbot-rs/src/pipelines_registry.rs
@@ -120,11 +120,18 @@ impl PipelinesRegistry {
     ///
     /// returns: Result<String, Err(String)>
     pub fn delete_by_input_key(&self, input_key: &str) -> Result<String, PipelineError> {
-        let pipeline = self.pipelines.lock().unwrap();
+        let mut pipeline = self.pipelines.lock().unwrap();
         let mut counter = 0;
-        if let Some(outputs) = pipeline.get(input_key) {
-            for (output_key, _) in outputs {
-                self.delete(input_key, output_key)?;
+        if let Some(outputs) = pipeline.get_mut(input_key) {
+            // `delete` takes the same lock, which is held already
+            while let Some((_, pipeline_id)) = outputs.pop_first() {
+                let result = cxx_bindings::ffi::delete_pipeline(pipeline_id.to_string());
+                if result != "" {
+                    return Err(PipelineError::Generic(format!(
+                        "Unable to delete pipeline {}: {}",
+                        pipeline_id, result
+                    )));
+                }
                 counter += 1;
             }
         }
-- 
2.43.0


From 5f0941af9c90a094cf34ab29bbf20ff21d5f2d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 48/52] fix: a sample added before the first run, or which
 cannot be read back, ends the Redis server

---
 apps/redis-module/src/commands/rtbot_xrun.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/redis-module/src/commands/rtbot_xrun.rs b/apps/redis-module/src/commands/rtbot_xrun.rs
index d8dff59..fec8eb4 100644
--- a/apps/redis-module/src/commands/rtbot_xrun.rs
+++ b/apps/redis-module/src/commands/rtbot_xrun.rs
@@ -9,7 +9,11 @@ pub fn on_generic_event(
     _key: &str,
 ) -> RedisResult {
     if _event == "ts.add" {
-        let last = if let RedisValue::Array(arr) = ctx.call("ts.get", &[_key]).unwrap() {
+        // before the first run there is no pipeline to send it to
+        if PIPELINES_REGISTRY.read().unwrap().is_none() {
+            return Ok(RedisValue::from(()));
+        }
+        let last = if let RedisValue::Array(arr) = ctx.call("ts.get", &[_key])? {
             arr
         } else {
             return Err(Str("Response from 'ts.get' is not an array"));
-- 
2.43.0


From db0f77551b3fb1a6bfaf82719f62cb94e909a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 49/52] fix: a run that fails halfway leaves its pipeline
 registered

---
 apps/redis-module/src/commands/rtbot_run.rs | 44 ++++++++++++++-------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index ac9db75..f3afb34 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -1,7 +1,7 @@
 use crate::pipelines_registry::{PipelinesRegistry, PIPELINES_REGISTRY};
 use crate::program_validator::ProgramJsonSchemaValidator;
 use redis_module::RedisError::{Str, String};
-use redis_module::{Context, RedisResult, RedisString, RedisValue};
+use redis_module::{Context, RedisError, RedisResult, RedisString, RedisValue};
 use serde_json::Value;
 use std::ffi::CString;
 
@@ -45,16 +45,38 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
 
     // create the pipeline
     let pipeline_id = registry.create(&get_program_result, &input_key, &output_key)?;
+    if let Err(err) = replay(ctx, registry, &input_key, &output_key) {
+        // nobody would own the pipeline
+        registry.delete(&input_key, &output_key)?;
+        return Err(err);
+    }
+
+    if persist_pipeline {
+        return Ok(pipeline_id.into());
+    } else {
+        // delete the pipeline
+        registry.delete(&input_key, &output_key)?;
+        Ok("OK".into())
+    }
+}
+
+/// Sends what the input key holds already and stores what comes out of it
+fn replay(
+    ctx: &Context,
+    registry: &PipelinesRegistry,
+    input_key: &str,
+    output_key: &str,
+) -> Result<(), RedisError> {
     // get the data from the input key
-    let input_ts = match ctx.call("ts.range", &[input_key.to_string().as_str(), "-", "+"])? {
+    let input_ts = match ctx.call("ts.range", &[input_key, "-", "+"])? {
         RedisValue::Array(s) => Ok(s),
         result => Err(String(format!(
-            "Response from 'json.get' is not an array: {} -> {:?}",
-            program_key, result
+            "Response from 'ts.range' is not an array: {} -> {:?}",
+            input_key, result
         ))),
     }?;
     // delete whatever is in the output key, if something
-    ctx.call("del", &[output_key.as_str()])?;
+    ctx.call("del", &[output_key])?;
     // create a new timeseries key
     // Notice that here we are using a policy that will replace the existing
     // value with the latest send in case of having two values with the same
@@ -62,7 +84,7 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
     // will be needed on this
     ctx.call(
         "ts.create",
-        &[output_key.as_str(), "DUPLICATE_POLICY", "LAST"],
+        &[output_key, "DUPLICATE_POLICY", "LAST"],
     )?;
     // send it to the pipeline
     for entry in input_ts {
@@ -83,7 +105,7 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         .unwrap()
         .parse::<f64>()
         .unwrap();
-        let result = registry.receive(&input_key, *timestamp as u64, vec![value])?;
+        let result = registry.receive(input_key, *timestamp as u64, vec![value])?;
         // now for each of the registered outputs send the result
         for (registered_output_key, message) in result {
             if !message.is_empty() {
@@ -105,11 +127,5 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         }
     }
 
-    if persist_pipeline {
-        return Ok(pipeline_id.into());
-    } else {
-        // delete the pipeline
-        registry.delete(&input_key, &output_key)?;
-        Ok("OK".into())
-    }
+    Ok(())
 }
-- 
2.43.0


From 9e8e295304a8bed41d77612fae691d46a179856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 50/52] fix: validating a text that is no valid UTF-8 answers
 that it is invalid

The error quotes the offending bytes, and writing it as JSON threw in turn.
---
 libs/api/src/bindings.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libs/api/src/bindings.cpp b/libs/api/src/bindings.cpp
index be89eb0..52a9f67 100644
--- a/libs/api/src/bindings.cpp
+++ b/libs/api/src/bindings.cpp
@@ -49,6 +49,12 @@ ProgramMessage<uint64_t, double> processMessageMapNative(string const& programId
   return factory.processMessageMap(programId, messagesMap);
 }
 
+// the error may quote a part of the text that is no valid UTF-8
+static string invalid(string const& error) {
+  return nlohmann::json({{"valid", false}, {"error", error}})
+      .dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
+}
+
 string validateOperator(string const& type, string const& json_op) {
   json_validator validator(nullptr, nlohmann::json_schema::default_string_format_check);  // create validator
 
@@ -64,18 +70,18 @@ string validateOperator(string const& type, string const& json_op) {
     if (schema)
       validator.set_root_schema(schema.value());
     else
-      return nlohmann::json({{"valid", false}, {"error", "Unknown operator type: " + type}}).dump();
+      return invalid("Unknown operator type: " + type);
 
   } catch (const exception& e) {
     cout << "Unable to set the rtbot schema as root: " << e.what() << "\n";
-    return nlohmann::json({{"valid", false}, {"error", e.what()}}).dump();
+    return invalid(e.what());
   }
 
   try {
     validator.validate(
         nlohmann::json::parse(json_op));  // validate the document - uses the default throwing error-handler
   } catch (const exception& e) {
-    return nlohmann::json({{"valid", false}, {"error", e.what()}}).dump();
+    return invalid(e.what());
   }
 
   return nlohmann::json({{"valid", true}}).dump();
@@ -88,14 +94,14 @@ string validate(string const& json_program) {
     validator.set_root_schema(rtbot_schema);  // insert root-schema
   } catch (const std::exception& e) {
     cout << "Unable to set the rtbot schema as root: " << e.what() << "\n";
-    return nlohmann::json({{"valid", false}, {"error", e.what()}}).dump();
+    return invalid(e.what());
   }
 
   try {
     validator.validate(
         nlohmann::json::parse(json_program));  // validate the document - uses the default throwing error-handler
   } catch (const exception& e) {
-    return nlohmann::json({{"valid", false}, {"error", e.what()}}).dump();
+    return invalid(e.what());
   }
 
   return nlohmann::json({{"valid", true}}).dump();
-- 
2.43.0


From 4bfd201a6363b0bf69da43609483aff505cd409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 51/52] fix: refuse descriptions nested so deeply that
 processing them overflows the stack

---
 libs/api/include/rtbot/FactoryOp.h |  3 +++
 libs/api/src/FactoryOp.cpp         | 18 ++++++++++++++++++
 libs/api/src/Program.cpp           |  1 +
 libs/api/src/bindings.cpp          |  2 ++
 4 files changed, 24 insertions(+)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 2f6d6ce..e658382 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -52,6 +52,9 @@ class FactoryOp {
     op_registry()[Op().typeName()] = SerializerOp{from_string, to_string, to_string_default};
   }
 
+  // refuses a description nested so deeply that processing it would overflow the stack
+  static void checkNesting(string const& json_string);
+
   static Op_ptr<uint64_t, double> readOp(string const& json_string);
   static string writeOp(Op_ptr<uint64_t, double> const& op);
 
diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index c6ddcc1..784616c 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -519,7 +519,25 @@ FactoryOp::FactoryOp() {
 
 static FactoryOp factory;
 
+void FactoryOp::checkNesting(string const& json_string) {
+  constexpr size_t maxDepth = 1000;
+  size_t depth = 0;
+  bool quoted = false;
+  for (size_t i = 0; i < json_string.size(); i++) {
+    char c = json_string[i];
+    if (quoted && c == '\\')
+      i++;
+    else if (c == '"')
+      quoted = !quoted;
+    else if (!quoted && (c == '[' || c == '{') && ++depth > maxDepth)
+      throw runtime_error("Description nested more than " + to_string(maxDepth) + " levels deep");
+    else if (!quoted && (c == ']' || c == '}') && depth > 0)
+      depth--;
+  }
+}
+
 Op_ptr<uint64_t, double> FactoryOp::readOp(const string& program) {
+  checkNesting(program);
   auto json = json::parse(program);
   string type = json.at("type");
   auto it = op_registry().find(type);
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index b53b928..8a7e3a6 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -39,6 +39,7 @@ Program::Program(const string& json_string) {
 }
 
 void Program::init() {
+  FactoryOp::checkNesting(program_json);
   auto j = json::parse(program_json);
   this->entryOperator = j.value("entryOperator", "");
 
diff --git a/libs/api/src/bindings.cpp b/libs/api/src/bindings.cpp
index 52a9f67..d9e535b 100644
--- a/libs/api/src/bindings.cpp
+++ b/libs/api/src/bindings.cpp
@@ -78,6 +78,7 @@ string validateOperator(string const& type, string const& json_op) {
   }
 
   try {
+    rtbot::FactoryOp::checkNesting(json_op);
     validator.validate(
         nlohmann::json::parse(json_op));  // validate the document - uses the default throwing error-handler
   } catch (const exception& e) {
@@ -98,6 +99,7 @@ string validate(string const& json_program) {
   }
 
   try {
+    rtbot::FactoryOp::checkNesting(json_program);
     validator.validate(
         nlohmann::json::parse(json_program));  // validate the document - uses the default throwing error-handler
   } catch (const exception& e) {
-- 
2.43.0


From a2b8fcfa65066826565ed61e0d986c793fe08e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:20 +0000
Subject: [PATCH 52/52] fix: Join kept messages that no input can match any
 more while another input was empty

---
 libs/core/include/rtbot/Join.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libs/core/include/rtbot/Join.h b/libs/core/include/rtbot/Join.h
index db274c6..905458a 100644
--- a/libs/core/include/rtbot/Join.h
+++ b/libs/core/include/rtbot/Join.h
@@ -43,21 +43,19 @@ class Join : public Operator<T, V> {
 
   virtual ProgramMessage<T, V> executeData() override {
     string inputPort;
-    auto in = this->getDataInputs();
-    inputPort = in.at(0);
-
-    if (this->dataInputs.find(inputPort)->second.empty()) return {};
-    T latest = this->dataInputs.find(inputPort)->second.front().time;
+    T latest = 0;
 
+    // also while some port is empty, messages older than another port's front can not match any more
     for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->second.empty())
-        return {};
-      else if (it->second.front().time > latest) {
+      if (it->second.empty()) continue;
+      if (inputPort.empty() || it->second.front().time > latest) {
         inputPort = it->first;
         latest = it->second.front().time;
       }
     }
 
+    if (inputPort.empty()) return {};
+
     for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
       if (it->first == inputPort) continue;
       while (!it->second.empty() && (it->second.front().time < this->dataInputs.find(inputPort)->second.front().time)) {
-- 
2.43.0


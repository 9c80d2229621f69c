From a593474a13298228be0052ec48ad7a74260df410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:10 +0000
Subject: [PATCH 01/49] fix: RingDeque self-assignment dropped the queue's
 elements

---
 include/Pothos/Util/RingDeque.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Pothos/Util/RingDeque.hpp b/include/Pothos/Util/RingDeque.hpp
index d0cf340..2737ea3 100644
--- a/include/Pothos/Util/RingDeque.hpp
+++ b/include/Pothos/Util/RingDeque.hpp
@@ -177,6 +177,7 @@ RingDeque<T, A>::RingDeque(RingDeque<T, A> &&other):
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 {
+    if (this == &other) return *this;
     this->clear();
     this->set_capacity(other.capacity());
     for (size_t i = 0; i < other.size(); i++)
@@ -189,6 +190,7 @@ RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(RingDeque<T, A> &&other)
 {
+    if (this == &other) return *this;
     this->clear();
     _allocator.deallocate(_container, _mask+1);
     _allocator = std::move(other._allocator);
-- 
2.43.0


From 3f1183cacb2901d7ddb34ef2cd9b39c79fd637e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:00 +0000
Subject: [PATCH 02/49] fix: BufferAccumulator stepped back into unrelated
 memory after a reserve copy

pop() moved the unread remainder of a reserve (pool) buffer into the next
chunk whenever that chunk started far enough behind the start of its
memory, also when the bytes in front of it were not the copied ones
(for example a posted slice at an offset). Remember how many bytes at the
tail of the pool buffer were really copied from the next chunk.
---
 include/Pothos/Framework/BufferAccumulator.hpp | 1 +
 lib/Framework/BufferAccumulator.cpp            | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/BufferAccumulator.hpp b/include/Pothos/Framework/BufferAccumulator.hpp
index 914e115..a540131 100644
--- a/include/Pothos/Framework/BufferAccumulator.hpp
+++ b/include/Pothos/Framework/BufferAccumulator.hpp
@@ -87,6 +87,7 @@ private:
     Util::RingDeque<BufferChunk> _queue;
     size_t _bytesAvailable;
     bool _inPoolBuffer;
+    size_t _poolTailBytes; //tail of the pool buffer that is backed by front+1
     BufferPool _pool;
 };
 
diff --git a/lib/Framework/BufferAccumulator.cpp b/lib/Framework/BufferAccumulator.cpp
index 7dc7476..5cb60c8 100644
--- a/lib/Framework/BufferAccumulator.cpp
+++ b/lib/Framework/BufferAccumulator.cpp
@@ -16,7 +16,8 @@
 Pothos::BufferAccumulator::BufferAccumulator(void):
     _queue(64/*arbitrary*/),
     _bytesAvailable(0),
-    _inPoolBuffer(false)
+    _inPoolBuffer(false),
+    _poolTailBytes(0)
 {
     //never let the queue become empty -- hold an empty buffer
     if (_queue.empty()) _queue.push_front(BufferChunk());
@@ -27,6 +28,7 @@ void Pothos::BufferAccumulator::clear(void)
     _queue.clear();
     _bytesAvailable = 0;
     _inPoolBuffer = false;
+    _poolTailBytes = 0;
     _pool.clear();
 
     //never let the queue become empty -- hold an empty buffer
@@ -132,7 +134,7 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     //then pop the front and move into front+1.
     if (
         _inPoolBuffer and queue.size() > 1 and //pool in front
-        queue.front().length <= (queue[1].address - queue[1].getBuffer().getAddress()))
+        queue.front().length <= _poolTailBytes)
     {
         queue[1].address -= queue.front().length;
         queue[1].length += queue.front().length;
@@ -195,6 +197,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     newBuffer.dtype = queue.front().dtype;
     size_t newBuffBytes = newBuffer.length;
     newBuffer.length = 0;
+    _poolTailBytes = 0;
 
     //copy from the queue into the new buffer
     while (not queue.empty())
@@ -220,6 +223,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
             assert(newBuffBytes == 0);
             f.length -= copyBytes;
             f.address += copyBytes;
+            _poolTailBytes = copyBytes;
             break;
         }
     }
-- 
2.43.0


From 0f31246e4ea73c2e0cd36481f93558d417f88b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:41 +0000
Subject: [PATCH 03/49] fix: in-place outputs overwrote data still held by
 other readers of a circular buffer

The read-before-write optimization assumes that a chunk within the bounds
of its managed buffer refers to that buffer only. The buffers of a circular
buffer manager overlap when they are not completely filled, so an
amalgamated chunk can cover memory of the next buffer, which another
subscriber may still hold. Do not work in place on circular buffers.
---
 lib/Framework/WorkerActor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index f166d78..2cbb7cd 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -316,7 +316,10 @@ bool Pothos::WorkerActor::preWorkTasks(void)
         }
 
         //now determine the buffer provided to this port
+        //not for circular buffers: these overlap with the next buffer in memory,
+        //so the end does not reveal an amalgamation with a buffer that others hold
         if (tryRBW and port._buffer.useCount() == 2 and //2 -> accumulator + this port
+            port._buffer.getAlias() == 0 and //not circular
             port._buffer.getEnd() <= port._buffer.getBuffer().getEnd()) //no amalgamation
         {
             port._bufferFromManager = false;
-- 
2.43.0


From 866e26bb3e5735e7f6ac125f4ef72d25ada36217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:07 +0000
Subject: [PATCH 04/49] fix: self-assignment of a buffer reference released the
 buffer

Assigning a ManagedBuffer or BufferChunk to itself dropped the only
reference first, which returned the buffer to its manager (or freed it)
while the handle kept pointing to it.
---
 include/Pothos/Framework/BufferChunk.hpp   | 2 ++
 include/Pothos/Framework/ManagedBuffer.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 299f121..08d8bf7 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -350,6 +350,7 @@ inline Pothos::BufferChunk::~BufferChunk(void)
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = other.address;
     length = other.length;
@@ -361,6 +362,7 @@ inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &ot
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(BufferChunk &&other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = std::move(other.address);
     length = std::move(other.length);
diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index bf308cd..4c6214b 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -221,6 +221,7 @@ inline Pothos::ManagedBuffer::ManagedBuffer(ManagedBuffer &&obj) noexcept:
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuffer &obj)
 {
+    if (_impl == obj._impl) return *this; //also guards against self-assignment
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
     if (_impl != nullptr) _impl->incr();
@@ -229,6 +230,7 @@ inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuff
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(ManagedBuffer &&obj)
 {
+    if (this == &obj) return *this;
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
     obj._impl = nullptr;
-- 
2.43.0


From bd42809fbcb162c4dd7134e345b3adefd8496a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:08 +0000
Subject: [PATCH 05/49] fix: labels posted ahead of their element broke the
 order of an input's labels

---
 include/Pothos/Framework/InputPortImpl.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/InputPortImpl.hpp b/include/Pothos/Framework/InputPortImpl.hpp
index 6710a43..3f311fc 100644
--- a/include/Pothos/Framework/InputPortImpl.hpp
+++ b/include/Pothos/Framework/InputPortImpl.hpp
@@ -164,9 +164,14 @@ inline void Pothos::InputPort::bufferAccumulatorFront(Pothos::BufferChunk &buff)
     std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);
     while (not _inputInlineMessages.empty())
     {
-        _inlineMessages.push_back(std::move(_inputInlineMessages.front()));
-        _inlineMessages.back().adjust(1, this->dtype().size());
+        Label label(std::move(_inputInlineMessages.front()));
+        label.adjust(1, this->dtype().size());
         _inputInlineMessages.pop_front();
+
+        //labels are usually in order, but a label can be posted ahead of its element
+        auto it = _inlineMessages.end();
+        while (it != _inlineMessages.begin() and label < *(it-1)) --it;
+        _inlineMessages.insert(it, std::move(label));
     }
     buff = _bufferAccumulator.front();
 }
-- 
2.43.0


From f256d04078940ce3046aaff2aaa883703751a990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:18 +0000
Subject: [PATCH 06/49] fix: port names that are not plain indexes took the
 index of another port or failed half-way

A port named "00" replaced port "0" in the indexed ports, so that
input(0) and input("0") were different ports, and a long numeric name
threw from stoi after the port was partly registered.
---
 lib/Framework/WorkerActorPortAllocation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index f946af8..f8c8f7c 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -11,6 +11,11 @@
  **********************************************************************/
 static int portNameToIndex(const std::string &name)
 {
+    //only the canonical form of an index counts (no leading zeros, in range of an int)
+    //other names would share the index of another port or could not be represented
+    if (name.empty() or name.size() > 9) return -1;
+    if (name.size() > 1 and name.front() == '0') return -1;
+
     //check if all characters are digits or return -1
     for (const auto &ch : name)
     {
-- 
2.43.0


From fcfe8ea77313f540c8aef3e80cb135b7fe75b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:18 +0000
Subject: [PATCH 07/49] fix: work info kept the pointer of a removed automatic
 port

---
 lib/Framework/WorkerActorPortAllocation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index f8c8f7c..42e7f7b 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -164,6 +164,9 @@ void Pothos::WorkerActor::autoDeletePort(const std::string &name, PortsType &por
 
     //remove from ports itself
     ports.erase(it);
+
+    //resizes work info indexable pointers
+    this->updatePorts();
 }
 
 void Pothos::WorkerActor::autoDeleteInput(const std::string &name)
-- 
2.43.0


From 5834647c924c2ebbb1b6e845163b25b486480141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:18 +0000
Subject: [PATCH 08/49] fix: lookup of a missing port between two indexed ports
 returned a null pointer

---
 include/Pothos/Framework/BlockImpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/BlockImpl.hpp b/include/Pothos/Framework/BlockImpl.hpp
index fc03164..ea1f910 100644
--- a/include/Pothos/Framework/BlockImpl.hpp
+++ b/include/Pothos/Framework/BlockImpl.hpp
@@ -30,7 +30,7 @@ inline Pothos::InputPort *Pothos::Block::input(const std::string &name) const
 
 inline Pothos::InputPort *Pothos::Block::input(const size_t index) const
 {
-    if (index >= _indexedInputs.size()) throw PortAccessError(
+    if (index >= _indexedInputs.size() or _indexedInputs[index] == nullptr) throw PortAccessError(
         "Pothos::Block::input("+std::to_string(index)+")", "input port index does not exist");
     return _indexedInputs[index];
 }
@@ -45,7 +45,7 @@ inline Pothos::OutputPort *Pothos::Block::output(const std::string &name) const
 
 inline Pothos::OutputPort *Pothos::Block::output(const size_t index) const
 {
-    if (index >= _indexedOutputs.size()) throw PortAccessError(
+    if (index >= _indexedOutputs.size() or _indexedOutputs[index] == nullptr) throw PortAccessError(
         "Pothos::Block::output("+std::to_string(index)+")", "output port index does not exist");
     return _indexedOutputs[index];
 }
-- 
2.43.0


From 4521a867894115886c1bf8038641b61621702900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:58 +0000
Subject: [PATCH 09/49] fix: assigning an object to itself or from inside
 itself freed its value

---
 lib/Object/Object.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 20339c3..d86bcfb 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -87,17 +87,22 @@ Pothos::Object::operator bool(void) const
 
 Pothos::Object &Pothos::Object::operator=(const Object &rhs)
 {
-    decr(_impl);
+    //acquire first: rhs may be this object or held inside of it
+    auto old = _impl;
     _impl = rhs._impl;
     incr(_impl);
+    decr(old);
     return *this;
 }
 
 Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 {
-    decr(_impl);
-    _impl = rhs._impl;
+    //take the contents first: rhs may be this object or held inside of it
+    auto impl = rhs._impl;
     rhs._impl = nullptr;
+    auto old = _impl;
+    _impl = impl;
+    decr(old);
     return *this;
 }
 
-- 
2.43.0


From fd728aa102abd06b81c3973052584d7fc2928272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:58 +0000
Subject: [PATCH 10/49] fix: Object::unique() crashed on null objects and did
 not synchronize with dropped references

---
 lib/Object/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index d86bcfb..db7e4cb 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -108,7 +108,8 @@ Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 
 bool Pothos::Object::unique(void) const
 {
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    //acquire: the sole owner may change the value after other threads dropped their references
+    return _impl != nullptr and _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 std::string Pothos::Object::getTypeString(void) const
-- 
2.43.0


From 4eb20986ac50dfd68b4de3fa9ca7531e8cde9e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:58 +0000
Subject: [PATCH 11/49] fix: removed conversions, comparisons and hash
 functions were still reported as available

---
 lib/Object/Compare.cpp | 2 +-
 lib/Object/Convert.cpp | 2 +-
 lib/Object/Hash.cpp    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index bbf0fe8..96326f2 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -55,7 +55,7 @@ static void handleComparePluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getCompareMap()[typesHashCombine(t0, t1)] = Pothos::Plugin();
+            getCompareMap().erase(typesHashCombine(t0, t1));
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Convert.cpp b/lib/Object/Convert.cpp
index 84e9bf5..c2b19e7 100644
--- a/lib/Object/Convert.cpp
+++ b/lib/Object/Convert.cpp
@@ -64,7 +64,7 @@ static void handleConvertPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getConvertMap()[typesHashCombine(inputType, outputType)] = Pothos::Plugin();
+            getConvertMap().erase(typesHashCombine(inputType, outputType));
             getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());
         }
     }
diff --git a/lib/Object/Hash.cpp b/lib/Object/Hash.cpp
index 1e0d16d..0acc355 100644
--- a/lib/Object/Hash.cpp
+++ b/lib/Object/Hash.cpp
@@ -49,7 +49,7 @@ static void handleHashFcnPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getHashFcnMap()[call.type(0).hash_code()] = Pothos::Plugin();
+            getHashFcnMap().erase(call.type(0).hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
-- 
2.43.0


From 46eedf3b40c0822b63271c7c50b582ec306a05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:12 +0000
Subject: [PATCH 12/49] fix: conversions accepted NaN and values just above the
 largest 64-bit integer

---
 lib/Object/Builtin/ConvertCommonImpl.hpp | 25 ++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/Object/Builtin/ConvertCommonImpl.hpp b/lib/Object/Builtin/ConvertCommonImpl.hpp
index d74c016..b77ad86 100644
--- a/lib/Object/Builtin/ConvertCommonImpl.hpp
+++ b/lib/Object/Builtin/ConvertCommonImpl.hpp
@@ -12,6 +12,7 @@
 #include <Pothos/Callable.hpp>
 #include <Poco/Format.h>
 #include <limits>
+#include <cmath> //ldexp
 #include <complex>
 #include <string>
 #include <vector>
@@ -42,12 +43,32 @@ typedef std::complex<double> cdouble;
  * type conversion checkers
  **********************************************************************/
 
+//! is an integer outside of the range of an integer type? (compares without rounding)
+template <typename OutType, typename InType>
+typename std::enable_if<std::is_integral<InType>::value and std::is_integral<OutType>::value, bool>::type
+outOfRange(const InType &in)
+{
+    if (in < InType(0)) return not std::is_signed<OutType>::value or sllong(in) < sllong(std::numeric_limits<OutType>::lowest());
+    return ullong(in) > ullong(std::numeric_limits<OutType>::max());
+}
+
+//! is a number outside of the range of the output type when either type is floating point?
+template <typename OutType, typename InType>
+typename std::enable_if<not std::is_integral<InType>::value or not std::is_integral<OutType>::value, bool>::type
+outOfRange(const InType &in)
+{
+    const double value(in);
+    if (value > double(std::numeric_limits<OutType>::max()) or //too large
+        value < double(std::numeric_limits<OutType>::lowest())) return true; //too small
+    //the largest 64-bit integers round up to a value that does not fit, and NaN does not fit into any integer
+    return std::is_integral<OutType>::value and not (value < std::ldexp(1.0, std::numeric_limits<OutType>::digits));
+}
+
 //! check if the input value can fit into the output type
 template <typename OutType, typename InType>
 void convertNumCheck(const InType &in)
 {
-    if (double(in) > double(std::numeric_limits<OutType>::max()) or //too large
-        double(in) < double(std::numeric_limits<OutType>::lowest())) //too small
+    if (outOfRange<OutType>(in))
     {
         throw Pothos::RangeException(Poco::format("value %s out of range for output type %s",
             std::to_string(in), Pothos::Util::typeInfoToString(typeid(OutType))));
-- 
2.43.0


From df4e2d294caa0cb5f188e7deb54fad7534e0f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:40 +0000
Subject: [PATCH 13/49] fix: compare large integers exactly

Object::compareTo() compared all numbers as double, so that different
64-bit integers beyond 2^53 were equal (and collided as map keys).
---
 lib/Object/Compare.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index 96326f2..c13ac01 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -10,6 +10,8 @@
 #include <Pothos/Util/CompareTo.hpp>
 #include <Poco/Logger.h>
 #include <Poco/Format.h>
+#include <limits>
+#include <cmath>
 #include <mutex>
 #include <map>
 
@@ -76,6 +78,33 @@ pothos_static_block(pothosObjectCompareRegister)
 /***********************************************************************
  * The compare implementation
  **********************************************************************/
+template <typename T>
+static bool getInteger(const Pothos::Object &obj, T &out)
+{
+    try {out = obj.convert<T>(); return true;}
+    catch (const Pothos::RangeException &) {return false;}
+}
+
+static int compareNumbers(const Pothos::Object &obj0, const Pothos::Object &obj1)
+{
+    const double num0(obj0), num1(obj1);
+    const int result = Pothos::Util::compareTo(num0, num1);
+
+    //large integers may have been rounded to the same double: compare as integers, equal doubles when out of range
+    static const double maxExact = std::ldexp(1.0, std::numeric_limits<double>::digits);
+    if (result != 0 or std::abs(num0) < maxExact) return result;
+    if (num0 < 0)
+    {
+        long long int0(0), int1(0);
+        if (not getInteger(obj0, int0) or not getInteger(obj1, int1)) return result;
+        return Pothos::Util::compareTo(int0, int1);
+    }
+    unsigned long long int0(0), int1(0);
+    const bool ok0 = getInteger(obj0, int0), ok1 = getInteger(obj1, int1);
+    if (not ok0 or not ok1) return int(ok1) - int(ok0); //out of range is larger
+    return Pothos::Util::compareTo(int0, int1);
+}
+
 int Pothos::Object::compareTo(const Pothos::Object &other) const
 {
     //find the plugin in the map, it will be null if not found
@@ -85,7 +114,7 @@ int Pothos::Object::compareTo(const Pothos::Object &other) const
     //try a number type just in the case that this is possible
     if (it == getCompareMap().end()) try
     {
-        return Pothos::Util::compareTo(double(*this), double(other));
+        return compareNumbers(*this, other);
     }
     catch(const Pothos::ObjectConvertError &){}
 
-- 
2.43.0


From 9e9a274f3233c6e7a6fc924985198d28901a53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 14/49] fix: objects without a real value fail to compare with
 the documented error

Object::compareTo() let a RangeException escape for complex numbers and
infinities, also out of equals() and operators that fall back on the hash.
---
 lib/Object/Compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index c13ac01..42df8b3 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -117,6 +117,7 @@ int Pothos::Object::compareTo(const Pothos::Object &other) const
         return compareNumbers(*this, other);
     }
     catch(const Pothos::ObjectConvertError &){}
+    catch(const Pothos::RangeException &){} //not a real number
 
     //thow an error when the compare is not supported
     if (it == getCompareMap().end()) throw Pothos::ObjectCompareError(
-- 
2.43.0


From 0ae2329bc98e38d91c9ce9d21decbb9e78e76cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:29 +0000
Subject: [PATCH 15/49] fix: converting an ObjectMap to ObjectKwargs keeps
 string keys

The keys were passed through Object::toString(), which adds quotes.
---
 lib/Proxy/Builtin/ConvertContainers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Proxy/Builtin/ConvertContainers.cpp b/lib/Proxy/Builtin/ConvertContainers.cpp
index f0df302..f898e81 100644
--- a/lib/Proxy/Builtin/ConvertContainers.cpp
+++ b/lib/Proxy/Builtin/ConvertContainers.cpp
@@ -130,7 +130,9 @@ static Pothos::ObjectKwargs convertObjectMapToObjectKwargs(const Pothos::ObjectM
     Pothos::ObjectKwargs kwargs;
     for (const auto &pair : oMap)
     {
-        kwargs.emplace_hint(kwargs.end(), pair.first.toString(), pair.second);
+        //toString() adds quotes to a string
+        const bool isString = pair.first.type() == typeid(std::string);
+        kwargs.emplace(isString?pair.first.extract<std::string>():pair.first.toString(), pair.second);
     }
     return kwargs;
 }
-- 
2.43.0


From 133269ff98c0175158c65e974cfa53067084e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:37 +0000
Subject: [PATCH 16/49] fix: a removed toString plugin is not called any more

---
 lib/Object/ToString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Object/ToString.cpp b/lib/Object/ToString.cpp
index 5c2fa35..a91f929 100644
--- a/lib/Object/ToString.cpp
+++ b/lib/Object/ToString.cpp
@@ -59,7 +59,7 @@ static void handleToStringPluginEvent(const Pothos::Plugin &plugin, const std::s
         }
         if (event == "remove")
         {
-            getToStringMap()[t.hash_code()] = Pothos::Plugin();
+            getToStringMap().erase(t.hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
-- 
2.43.0


From 9e4a994bbacfed68cb6f05ae52600b19bac88002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 17/49] fix: load large negative 64-bit integers from an
 archive

The sign extension shifted an int by up to 63 bits.
---
 include/Pothos/Archive/Numbers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index c728386..d6ffcb5 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -138,7 +138,7 @@ typename std::enable_if<
 
     //sign extend the remaining bits when negative
     const auto signbit = byte & 0x40;
-    if (signbit != 0 and shift < (sizeof(T)*8)) t |= -(1 << shift);
+    if (signbit != 0 and shift < (sizeof(T)*8)) t |= static_cast<T>(~0ull << shift);
 }
 
 //------------ 32-64 bit unsigned integer types --------------//
-- 
2.43.0


From 221442b459c25f85c97ddd515ede1942b6d67202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 18/49] fix: loading from an archive that ends early fails

Reading past the end of the stream left the remaining values
uninitialized instead of raising an error.
---
 include/Pothos/Archive/ArchiveEntry.hpp | 5 +++--
 include/Pothos/Archive/Polymorphic.hpp  | 1 +
 lib/Archive/StreamArchiver.cpp          | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/ArchiveEntry.hpp b/include/Pothos/Archive/ArchiveEntry.hpp
index 970cb03..3a4b112 100644
--- a/include/Pothos/Archive/ArchiveEntry.hpp
+++ b/include/Pothos/Archive/ArchiveEntry.hpp
@@ -15,6 +15,7 @@
 #include <type_traits>
 #include <typeinfo>
 #include <iosfwd>
+#include <memory>
 #include <string>
 
 namespace Pothos {
@@ -104,7 +105,7 @@ void Pothos::Archive::ArchiveEntryT<T>::save(OStreamArchiver &ar, const void *t)
 template <typename T>
 void *Pothos::Archive::ArchiveEntryT<T>::load(IStreamArchiver &ar) const
 {
-    T *t = new T();
+    std::unique_ptr<T> t(new T());
     ar >> *t;
-    return t;
+    return t.release();
 }
diff --git a/include/Pothos/Archive/Polymorphic.hpp b/include/Pothos/Archive/Polymorphic.hpp
index e2680d8..ee14631 100644
--- a/include/Pothos/Archive/Polymorphic.hpp
+++ b/include/Pothos/Archive/Polymorphic.hpp
@@ -35,6 +35,7 @@ load(Archive &ar, T* &t, const unsigned int)
     ar >> idHash;
     const auto &entry = Pothos::Archive::ArchiveEntry::find(idHash);
     delete t; //delete previous pointer or its null
+    t = nullptr; //when load throws
     t = static_cast<T*>(entry.load(ar));
 }
 
diff --git a/lib/Archive/StreamArchiver.cpp b/lib/Archive/StreamArchiver.cpp
index 1b95898..fdc54c8 100644
--- a/lib/Archive/StreamArchiver.cpp
+++ b/lib/Archive/StreamArchiver.cpp
@@ -3,6 +3,7 @@
 
 #include <Pothos/Archive/StreamArchiver.hpp>
 #include <Pothos/Archive/Numbers.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <iostream>
 
 #define POTHOS_ARCHIVE_VERSION 2
@@ -29,4 +30,5 @@ void Pothos::Archive::IStreamArchiver::readBytes(void *buff, const size_t len)
 {
     if (len == 0) return;
     is.read(reinterpret_cast<char *>(buff), len);
+    if (not is) throw Pothos::ArchiveException("IStreamArchiver::readBytes()", "input stream ended");
 }
-- 
2.43.0


From a9622bf3b15f3c6042491a2981ff684e3ba8aa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:12 +0000
Subject: [PATCH 19/49] fix: a removed managed class is not looked up any more

Removing a class left null plugins in the lookup map, so that lookup()
failed with a conversion error instead of the documented lookup error.
---
 lib/Managed/Registry.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Managed/Registry.cpp b/lib/Managed/Registry.cpp
index 1c3d1bd..0579570 100644
--- a/lib/Managed/Registry.cpp
+++ b/lib/Managed/Registry.cpp
@@ -49,9 +49,9 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
         }
         if (event == "remove")
         {
-            getClassMap()[reg.type().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.pointerType().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.sharedType().hash_code()] = Pothos::Plugin();
+            getClassMap().erase(reg.type().hash_code());
+            getClassMap().erase(reg.pointerType().hash_code());
+            getClassMap().erase(reg.sharedType().hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
-- 
2.43.0


From f74a5d7c5da19be6125bcaf7a8fd9c86024381ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:12 +0000
Subject: [PATCH 20/49] fix: a removed proxy converter is not called any more

The same as for managed classes: the maps kept a null plugin, and with it
the conversion failed with another error than the documented one.
---
 lib/Proxy/Convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Proxy/Convert.cpp b/lib/Proxy/Convert.cpp
index 873805b..5612e90 100644
--- a/lib/Proxy/Convert.cpp
+++ b/lib/Proxy/Convert.cpp
@@ -105,7 +105,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToLocalMap()[hashIt(name, pair.first)] = Pothos::Plugin();
+                getConvertToLocalMap().erase(hashIt(name, pair.first));
             }
         }
         else if (isConvertToProxy(plugin))
@@ -118,7 +118,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToProxyMap()[hashIt(name, callable.type(1))] = Pothos::Plugin();
+                getConvertToProxyMap().erase(hashIt(name, callable.type(1)));
             }
         }
         else
-- 
2.43.0


From e9f0544c83dc31d8d311c95deb0a2893cd791162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:18 +0000
Subject: [PATCH 21/49] fix: evaluating an expression with an unexpected
 closing bracket fails

The closing bracket was compared with the top of an empty stack, and some
expressions (1]2) made eval() call itself without end.
---
 lib/Util/EvalEnvironmentListParsers.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Util/EvalEnvironmentListParsers.cpp b/lib/Util/EvalEnvironmentListParsers.cpp
index 5101706..563d379 100644
--- a/lib/Util/EvalEnvironmentListParsers.cpp
+++ b/lib/Util/EvalEnvironmentListParsers.cpp
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: BSL-1.0
 
 #include <Pothos/Util/EvalEnvironment.hpp>
+#include <Pothos/Exception.hpp>
 #include <vector>
 #include <string>
 #include <stack>
@@ -26,9 +27,14 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
         else if ((ch == ')' and tokenizer != '\0') or ch == '}' or ch == ']')
         {
             field.push_back(ch);
-            if ((specials.top() == '(' and ch == ')') or
+            if (specials.empty() or not (
+                (specials.top() == '(' and ch == ')') or
                 (specials.top() == '{' and ch == '}') or
-                (specials.top() == '[' and ch == ']')) specials.pop();
+                (specials.top() == '[' and ch == ']')))
+            {
+                throw Pothos::Exception("EvalEnvironment::eval("+expr+")", std::string("unexpected ") + ch);
+            }
+            specials.pop();
 
             //top level container ended
             if (specials.empty() and tokenizer == '\0')
-- 
2.43.0


From 7cf1fee47aad6fe9a723b10527e97f3af6dbb93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:18 +0000
Subject: [PATCH 22/49] fix: an escaped backslash before the closing quote of
 an expression string

The quote was taken as escaped, so that the string did not end there and
lists and maps with such a string could not be evaluated.
---
 lib/Util/EvalEnvironmentListParsers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Util/EvalEnvironmentListParsers.cpp b/lib/Util/EvalEnvironmentListParsers.cpp
index 563d379..a875d03 100644
--- a/lib/Util/EvalEnvironmentListParsers.cpp
+++ b/lib/Util/EvalEnvironmentListParsers.cpp
@@ -74,7 +74,8 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
             if (not field.empty() or not std::isspace(ch)) field.push_back(ch);
         }
 
-        previousCh = ch;
+        //an escaped backslash does not escape the next character
+        previousCh = (inQuotes and ch == '\\' and previousCh == '\\')? '\0' : ch;
     }
 
     if (not field.empty()) tokens.push_back(field);
-- 
2.43.0


From 38800bdba3b997b35e13f3506beccd9a18d6e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:18 +0000
Subject: [PATCH 23/49] fix: evaluate lists and maps with spaces around them

---
 lib/Util/EvalEnvironment.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index 4ed0548..aef52f6 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -196,9 +196,10 @@ void Pothos::Util::EvalEnvironment::unregisterConstant(const std::string &key)
     if (_impl->p.IsConstDefined(key)) _impl->p.RemoveConst(key);
 }
 
-Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expr)
+Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression)
 {
-    if (Poco::trim(expr).empty()) throw Pothos::Exception("EvalEnvironment::eval()", "expression is empty");
+    const auto expr = Poco::trim(expression);
+    if (expr.empty()) throw Pothos::Exception("EvalEnvironment::eval()", "expression is empty");
 
     //handle multiple containers in top level
     const auto tokens = EvalEnvironment::splitExpr(expr);
-- 
2.43.0


From 01b02e5610f4635126344f940fa52a878b8e9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:18 +0000
Subject: [PATCH 24/49] fix: nested containers of an expression do not
 overwrite each other

The temporary constants of an inner expression had the names of those that
the outer expression had already registered.
---
 lib/Util/EvalEnvironment.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index aef52f6..e6ca537 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -205,22 +205,26 @@ Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression
     const auto tokens = EvalEnvironment::splitExpr(expr);
     if (tokens.size() > 1)
     {
-        size_t index = 0;
         std::string newExpr;
+        std::vector<Object> containers;
         for (const auto &tok : tokens)
         {
             if (tok.empty()) continue;
             if (tok.front() == '[' or tok.front() == '{')
             {
-                const std::string key = tmpTypeId + std::to_string(index++);
-                this->registerConstantObj(key, this->eval(tok));
-                newExpr += key;
+                newExpr += tmpTypeId + std::to_string(containers.size());
+                containers.push_back(this->eval(tok));
             }
             else
             {
                 newExpr += tok;
             }
         }
+        //register the temporaries after all nested evaluations, which use the same names
+        for (size_t i = 0; i < containers.size(); i++)
+        {
+            this->registerConstantObj(tmpTypeId + std::to_string(i), containers[i]);
+        }
         return this->eval(newExpr);
     }
 
-- 
2.43.0


From 87bea7c0c9ece41f4e0c6cd5ac8ddab01222d37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:58 +0000
Subject: [PATCH 25/49] fix: an octal number has to begin with an octal digit

0o-1 was evaluated as 4294967295.
---
 lib/Util/Builtin/MupOctalValReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Util/Builtin/MupOctalValReader.cpp b/lib/Util/Builtin/MupOctalValReader.cpp
index 589ffa1..3388e59 100644
--- a/lib/Util/Builtin/MupOctalValReader.cpp
+++ b/lib/Util/Builtin/MupOctalValReader.cpp
@@ -20,6 +20,10 @@ bool MupOctalValReader::IsValue(
     if (a_iPos >= (int)len || a_szExpr[a_iPos + 1] != 'o' || a_szExpr[a_iPos + 1] == 0 || a_szExpr[a_iPos] != '0')
         return 0;
 
+    // the stream would also take spaces and a sign
+    if (a_szExpr[a_iPos + 2] < '0' || a_szExpr[a_iPos + 2] > '7')
+        return false;
+
     unsigned iVal(0);
 
     mup::stringstream_type::pos_type nPos(0);
-- 
2.43.0


From e0b2aa5685ed7cc48119bafb1fda75532e3a7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:09 +0000
Subject: [PATCH 26/49] fix: whole numbers beyond the integer type evaluate as
 floating point

1e19 was evaluated as -9223372036854775808.
---
 lib/Util/EvalEnvironment.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index e6ca537..57d1a94 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -22,6 +22,8 @@
 #include <map>
 #include <iostream>
 #include <mutex>
+#include <cmath> //abs, ldexp
+#include <limits>
 
 static const std::string mapTypeId("__map__");
 static const std::string tmpTypeId("__tmp__");
@@ -34,7 +36,10 @@ static Pothos::Object mupValueToObject(mup::IValue &val)
     switch (val.GetType())
     {
     case 'b': return Pothos::Object(val.GetBool());
-    case 'i': return Pothos::Object(val.GetInteger());
+    case 'i':
+        //the parser marks every whole number as integer, also those beyond the integer type
+        if (std::abs(val.GetFloat()) >= std::ldexp(1.0, std::numeric_limits<mup::int_type>::digits)) return Pothos::Object(val.GetFloat());
+        return Pothos::Object(val.GetInteger());
     case 'f': return Pothos::Object(val.GetFloat());
     case 'c': return Pothos::Object(val.GetComplex());
     case 's': return Pothos::Object(val.GetString());
-- 
2.43.0


From 4c840ea3978063243495c31f567900cf463b7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:37 +0000
Subject: [PATCH 27/49] fix: unload a module whose plugins were removed before

Removing a plugin again threw out of the destructor of the module.
---
 lib/Plugin/Module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index fdc6554..21f1b2a 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -112,7 +112,8 @@ Pothos::PluginModule::~PluginModule(void)
     if (not _impl->sharedLibrary.isLoaded()) return; //module not loaded
 
     poco_debug(Poco::Logger::get("Pothos.PluginModule.unload"), _impl->sharedLibrary.getPath());
-    for (const auto &pluginPath : this->getPluginPaths())
+    //only those that are still registered, others may have been removed since loading
+    for (const auto &pluginPath : ::getPluginPaths(*this))
     {
         PluginRegistry::remove(pluginPath);
     }
-- 
2.43.0


From 78f5d2bccc587626b3fcad2dc53c98749d43ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:37 +0000
Subject: [PATCH 28/49] fix: a module that fails to load does not stay the
 active module

Plugins registered later were attributed to the module that failed.
---
 lib/Plugin/Module.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index 21f1b2a..03488b2 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -94,7 +94,16 @@ Pothos::PluginModule::PluginModule(const std::string &path):
         registrySetActiveModuleLoading(*this);
         currentModuleVersion = &(_impl->version);
         ErrorMessageDisableGuard emdg;
-        _impl->sharedLibrary.load(path);
+        try
+        {
+            _impl->sharedLibrary.load(path);
+        }
+        catch (...)
+        {
+            currentModuleVersion = nullptr;
+            registrySetActiveModuleLoading(PluginModule());
+            throw;
+        }
         currentModuleVersion = nullptr;
         registrySetActiveModuleLoading(PluginModule());
         _impl->pluginPaths = ::getPluginPaths(*this);
-- 
2.43.0


From a8559d9f9261bedbd540b9154a729704543f73da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:37 +0000
Subject: [PATCH 29/49] fix: looking up plugins does not change the registry

get(), empty(), exists() and list() inserted nodes for the paths that they
were asked for, while holding only the shared lock.
---
 lib/Plugin/Registry.cpp | 69 ++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 45 deletions(-)

diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 08b25b7..d253d98 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -47,6 +47,19 @@ static RegistryEntry &getRegistryRoot(void)
     return regRoot;
 }
 
+//find the entry for a path without changing the tree, null when there is none
+static RegistryEntry *findRegistryEntry(const Pothos::PluginPath &path)
+{
+    RegistryEntry *root = &getRegistryRoot();
+    for (const auto &name : path.listNodes())
+    {
+        auto it = root->nodes.find(name);
+        if (it == root->nodes.end()) return nullptr;
+        root = &it->second;
+    }
+    return root;
+}
+
 /***********************************************************************
  * plugin event handler
  **********************************************************************/
@@ -188,17 +201,10 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
 Pothos::Plugin Pothos::PluginRegistry::get(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     //throw if the root does not have a plugin
-    if (not root->hasPlugin)
+    if (root == nullptr or not root->hasPlugin)
     {
         throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("+path.toString()+")", "plugin path not found");
     }
@@ -213,17 +219,10 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
     Plugin plugin;
     {
         std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
-        const std::vector<std::string> pathNodes = path.listNodes();
-        RegistryEntry *root = &getRegistryRoot();
-
-        for (size_t i = 0; i < pathNodes.size(); i++)
-        {
-            //next node in the tree at this node name
-            root = &root->nodes[pathNodes[i]];
-        }
+        RegistryEntry *root = findRegistryEntry(path);
 
         //throw if the root does not have a plugin
-        if (not root->hasPlugin)
+        if (root == nullptr or not root->hasPlugin)
         {
             throw Pothos::PluginRegistryError("Pothos::PluginRegistry::remove("+path.toString()+")", "plugin path not found");
         }
@@ -242,49 +241,29 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 bool Pothos::PluginRegistry::empty(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return not root->hasPlugin;
+    return root == nullptr or not root->hasPlugin;
 }
 
 bool Pothos::PluginRegistry::exists(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return root->getNumPlugins() != 0;
+    return root != nullptr and root->getNumPlugins() != 0;
 }
 
 std::vector<std::string> Pothos::PluginRegistry::list(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     std::vector<std::string> nodes;
+    if (root == nullptr) return nodes;
     for (const auto &name : root->nodeNamesOrdered)
     {
-        if (root->nodes[name].getNumPlugins() != 0) nodes.push_back(name);
+        if (root->nodes.at(name).getNumPlugins() != 0) nodes.push_back(name);
     }
     return nodes;
 }
-- 
2.43.0


From 131ffae3d522fb38b208c50a4005667cdeba1e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:49 +0000
Subject: [PATCH 30/49] fix: reading the plugin paths of a module does not
 change the table

---
 lib/Plugin/ModulePaths.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/ModulePaths.cpp b/lib/Plugin/ModulePaths.cpp
index 539faaa..51f3aa0 100644
--- a/lib/Plugin/ModulePaths.cpp
+++ b/lib/Plugin/ModulePaths.cpp
@@ -23,7 +23,10 @@ static ModulePathsMap &getModulePathsMap(void)
 std::vector<std::string> getPluginPaths(const Pothos::PluginModule &module)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getModulePathsMutex());
-    return getModulePathsMap()[module.getFilePath()];
+    const auto &map = getModulePathsMap();
+    const auto it = map.find(module.getFilePath());
+    if (it == map.end()) return std::vector<std::string>();
+    return it->second;
 }
 
 void updatePluginAssociation(const std::string &action, const Pothos::Plugin &plugin)
-- 
2.43.0


From 6c3a91d2bb41330af8cc7d317064d8755498e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:17 +0000
Subject: [PATCH 31/49] fix: disconnecting and rejected connections keep the
 ports of a topology in step with its flows

---
 lib/Framework/Topology.cpp | 58 +++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 23ca564..6234880 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -128,6 +128,10 @@ void Pothos::Topology::_connect(
     flow.src = _impl->makePort(src, srcName);
     flow.dst = _impl->makePort(dst, dstName);
 
+    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
+    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
+        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
+
     //perform auto-allocation, on a block this may or may not allocate, on a topology this throws
     try{getConnectable(src).get("_actor").call("autoAllocateOutput", srcName);}catch(const Exception &){}
     try{getConnectable(dst).get("_actor").call("autoAllocateInput", dstName);}catch(const Exception &){}
@@ -187,10 +191,6 @@ void Pothos::Topology::_connect(
         _impl->outputPortInfo[dstName].name = dstName;
     }
 
-    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
-    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
-        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
-
     _impl->flows.push_back(flow);
 }
 
@@ -207,28 +207,38 @@ void Pothos::Topology::_disconnect(
     flow.src = _impl->makePort(src, srcName);
     flow.dst = _impl->makePort(dst, dstName);
 
-    //validate that the ports exists before disconnection
-    std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
-    if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
-
-    std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
-    if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
+    //give the reason when there is no such flow
+    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
+    if (it == _impl->flows.end())
+    {
+        std::vector<std::string> outs, ins;
+        if (flow.src.obj) outs = getConnectable(src).call<std::vector<std::string>>("outputPortNames");
+        if (flow.src.obj and std::find(outs.begin(), outs.end(), srcName) == outs.end())
+            throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
 
-    //clear port info for disconnections from the hierarchy
-    if (not flow.src.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), srcName));
-    if (not flow.dst.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), dstName));
+        if (flow.dst.obj) ins = getConnectable(dst).call<std::vector<std::string>>("inputPortNames");
+        if (flow.dst.obj and std::find(ins.begin(), ins.end(), dstName) == ins.end())
+            throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
 
-    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
-    if (it == _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
-        Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
+        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
+            Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
+    }
 
-    //perform auto-deletion, on a block this may or may not delete, on a topology this throws
-    try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
-    try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
+    //clear port info for disconnections from the hierarchy, there is one entry per flow
+    if (not flow.src.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), srcName));
+    if (not flow.dst.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), dstName));
 
     _impl->flows.erase(it);
+
+    //perform auto-deletion unless another flow uses the port, on a block this may or may not delete, on a topology this throws
+    bool srcUsed(false), dstUsed(false);
+    for (const auto &other : _impl->flows)
+    {
+        if (other.src == flow.src) srcUsed = true;
+        if (other.dst == flow.dst) dstUsed = true;
+    }
+    if (not srcUsed) try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
+    if (not dstUsed) try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
 }
 
 void Pothos::Topology::disconnectAll(const bool recursive)
@@ -239,13 +249,13 @@ void Pothos::Topology::disconnectAll(const bool recursive)
         //throws ProxyHandleCallError on non topologies (aka blocks)
         if (flow.src.obj) try
         {
-            flow.src.obj.call("disconnectAll");
+            flow.src.obj.call("disconnectAll", true);
         }
         catch (const Pothos::Exception &){}
 
         if (flow.dst.obj) try
         {
-            flow.dst.obj.call("disconnectAll");
+            flow.dst.obj.call("disconnectAll", true);
         }
         catch (const Pothos::Exception &){}
     }
@@ -259,6 +269,8 @@ void Pothos::Topology::disconnectAll(const bool recursive)
 
     //clear our own local flows
     _impl->flows.clear();
+    _impl->inputPortNames.clear();
+    _impl->outputPortNames.clear();
 }
 
 bool Pothos::Topology::waitInactive(const double idleDuration, const double timeout)
-- 
2.43.0


From d6a7cb6a6b8d47dfc5e157826580bd5b6540a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:17 +0000
Subject: [PATCH 32/49] fix: flows that pass through topologies are completed
 exactly

---
 lib/Framework/TopologyCommit.cpp      | 41 ++++++++++++++-------------
 lib/Framework/TopologySquashFlows.cpp | 21 ++++++++++++--
 2 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index 4239cc6..b66c6ca 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -164,35 +164,36 @@ static std::vector<Flow> completePassThroughFlows(const std::vector<Flow> &flows
     //std::cout << "completePassThroughFlows:" << std::endl;
     //for (const auto &flow : flows) std::cout << "  " << flow.toString() << std::endl;
 
-    //try to complete pass-through flows and add it to the out flow list
-    for (auto &flow : flows)
+    //where to continue from a port that has flows passing through
+    std::unordered_map<Port, std::vector<Port>> passThrough;
+    for (const auto &flow : flows)
+    {
+        if (not flow.src.obj) passThrough[flow.src].push_back(flow.dst);
+    }
+
+    //follow every flow from its source to all destinations, which are added to the output flow once
+    for (const auto &flow : flows)
     {
-        if (flow.src.obj or flow.dst.obj) continue;
-        for (auto &flowTail : flows)
+        if (not flow.src.obj) continue;
+        std::vector<Port> dsts(1, flow.dst);
+        for (size_t i = 0; i < dsts.size(); i++)
         {
-            if (not flowTail.dst.obj) continue;
-            for (auto &flowHead : flows)
+            const Port dst = dsts[i];
+            if (not dst.obj)
             {
-                if (not flowHead.src.obj) continue;
-                if (flow.src == flowTail.src and flow.dst == flowHead.dst)
+                for (const auto &next : passThrough[dst])
                 {
-                    //create the new completed flow
-                    Flow newFlow;
-                    newFlow.src = flowHead.src;
-                    newFlow.dst = flowTail.dst;
-                    outFlows.push_back(newFlow);
-                    //std::cout << "NEW " << newFlow.toString() << std::endl;
+                    if (std::find(dsts.begin(), dsts.end(), next) == dsts.end()) dsts.push_back(next);
                 }
+                continue;
             }
+            Flow newFlow;
+            newFlow.src = flow.src;
+            newFlow.dst = dst;
+            if (std::find(outFlows.begin(), outFlows.end(), newFlow) == outFlows.end()) outFlows.push_back(newFlow);
         }
     }
 
-    //add all already completed flows to the output flow
-    for (auto &flow : flows)
-    {
-        if (flow.src.obj and flow.dst.obj)  outFlows.push_back(flow);
-    }
-
     return outFlows;
 }
 
diff --git a/lib/Framework/TopologySquashFlows.cpp b/lib/Framework/TopologySquashFlows.cpp
index 8a6b963..c6f528f 100644
--- a/lib/Framework/TopologySquashFlows.cpp
+++ b/lib/Framework/TopologySquashFlows.cpp
@@ -9,9 +9,19 @@
  **********************************************************************/
 static std::vector<Port> resolvePorts(const Port &port, const bool isSource);
 
+//a topology's own port, which stands for the flows that pass through the topology
+//the name is tagged because an input and an output can have the same name
+static Port makePassThroughPort(const Port &port, const bool isInput)
+{
+    Port passThroughPort = port;
+    passThroughPort.name = (isInput?"in:":"out:") + port.name;
+    return passThroughPort;
+}
+
 std::vector<Port> resolvePortsFromTopology(const Pothos::Topology &t, const std::string &portName, const bool isSource)
 {
     std::vector<Port> ports;
+    Port passThrough;
     for (const auto &flow : t._impl->flows)
     {
         //recurse through sub topology flows
@@ -19,15 +29,16 @@ std::vector<Port> resolvePortsFromTopology(const Pothos::Topology &t, const std:
         if (isSource and flow.dst.name == portName and not flow.dst.obj)
         {
             if (flow.src.obj) subPorts = resolvePorts(flow.src, isSource);
-            else ports.push_back(flow.src);
+            else passThrough = flow.dst;
         }
         if (not isSource and flow.src.name == portName and not flow.src.obj)
         {
             if (flow.dst.obj) subPorts = resolvePorts(flow.dst, isSource);
-            else ports.push_back(flow.dst);
+            else passThrough = flow.src;
         }
         ports.insert(ports.end(), subPorts.begin(), subPorts.end());
     }
+    if (not passThrough.uid.empty()) ports.push_back(makePassThroughPort(passThrough, not isSource));
     return ports;
 }
 
@@ -167,7 +178,11 @@ std::vector<Flow> Pothos::Topology::Impl::squashFlows(const std::vector<Flow> &f
     //the outer topology will squash the pass-through flows
     for (const auto &flow : flows)
     {
-        if (not flow.src.obj and not flow.dst.obj) flatFlows.push_back(flow);
+        if (flow.src.obj or flow.dst.obj) continue;
+        Flow passThroughFlow;
+        passThroughFlow.src = makePassThroughPort(flow.src, true);
+        passThroughFlow.dst = makePassThroughPort(flow.dst, false);
+        flatFlows.push_back(passThroughFlow);
     }
 
     //only store the actual blocks
-- 
2.43.0


From c8541f37e26e320525964bf581723ef5804a0d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:17 +0000
Subject: [PATCH 33/49] fix: the flat dump of a topology contains exactly the
 flattened connections

---
 lib/Framework/TopologyDumpJSON.cpp | 166 ++++++++++-------------------
 1 file changed, 55 insertions(+), 111 deletions(-)

diff --git a/lib/Framework/TopologyDumpJSON.cpp b/lib/Framework/TopologyDumpJSON.cpp
index 43b14f6..e248643 100644
--- a/lib/Framework/TopologyDumpJSON.cpp
+++ b/lib/Framework/TopologyDumpJSON.cpp
@@ -6,6 +6,9 @@
 #include "Framework/TopologyImpl.hpp"
 #include <Pothos/Proxy.hpp>
 #include <json.hpp>
+#include <algorithm>
+#include <set>
+#include <tuple>
 
 using json = nlohmann::json;
 
@@ -14,132 +17,74 @@ static bool blockIsHier(const json &blockObj)
     return blockObj.count("connections") != 0;
 }
 
-static std::vector<std::pair<std::string, std::string>> resolvePorts(
-    const json &topObj,
-    const std::string &blockId,
-    const std::string &portName,
-    const bool resolveSrc
-)
-{
-    std::vector<std::pair<std::string, std::string>> results;
-
-    const auto blocksObj = topObj["blocks"];
-    if (blocksObj.count(blockId) == 0) return results;
-    const auto &blockObj = blocksObj[blockId];
-
-    if (not blockIsHier(blockObj))
-    {
-        results.emplace_back(blockId, portName);
-        return results;
-    }
+//the end of a connection: ID, port name, and direction for the port of a hierarchy
+typedef std::tuple<std::string, std::string, std::string> FlatPort;
 
-    for (const auto &subConnObj : blockObj.value("connections", json::array()))
+//gather the processing blocks and the connections from all levels of the hierarchy
+static void gatherFlat(
+    const json &levelObj,
+    const std::string &levelId,
+    const std::string &prefix,
+    json &flatBlocksObj,
+    std::vector<std::pair<FlatPort, FlatPort>> &flatConns)
+{
+    const auto blocksObj = levelObj.value("blocks", json::object());
+    for (auto it = blocksObj.begin(); it != blocksObj.end(); ++it)
     {
-        std::string subId, subName;
-
-        if (resolveSrc)
-        {
-            if (subConnObj["dstId"].get<std::string>() != blockId) continue;
-            if (subConnObj["dstName"].get<std::string>() != portName) continue;
-            subId = subConnObj["srcId"].get<std::string>();
-            subName = subConnObj["srcName"].get<std::string>();
-        }
+        auto blockObj = it.value();
+        const std::string name = prefix + blockObj["name"].get<std::string>(); //heritage name
+        if (blockIsHier(blockObj)) gatherFlat(blockObj, it.key(), name+"/", flatBlocksObj, flatConns);
         else
         {
-            if (subConnObj["srcId"].get<std::string>() != blockId) continue;
-            if (subConnObj["srcName"].get<std::string>() != portName) continue;
-            subId = subConnObj["dstId"].get<std::string>();
-            subName = subConnObj["dstName"].get<std::string>();
+            blockObj["name"] = name;
+            flatBlocksObj[it.key()] = blockObj;
         }
-
-        //ignore pass-through connections in this loop
-        if (subId != blockId) results.emplace_back(subId, subName);
     }
 
-    return results;
+    auto makePort = [&](const std::string &id, const std::string &name, const bool isSource)
+    {
+        if (id == levelId) return FlatPort(id, name, isSource?"in":"out");
+        const bool isHier = blocksObj.count(id) != 0 and blockIsHier(blocksObj[id]);
+        return FlatPort(id, name, isHier?(isSource?"out":"in"):"");
+    };
+    for (const auto &connObj : levelObj.value("connections", json::array()))
+    {
+        flatConns.emplace_back(
+            makePort(connObj["srcId"].get<std::string>(), connObj["srcName"].get<std::string>(), true),
+            makePort(connObj["dstId"].get<std::string>(), connObj["dstName"].get<std::string>(), false));
+    }
 }
 
-static bool flattenDump(json &topObj)
+static void flattenDump(json &topObj, const std::string &topId)
 {
-    bool hierFound = false;
-
-    //create new blocks object that flattens any hierarchy to 1 depth
-    //if this block is a hierarchy -- bring its blocks to the top level
-    auto &blocksObj = topObj["blocks"];
     json flatBlocksObj(json::object());
-    for (auto it = blocksObj.begin(); it != blocksObj.end(); ++it)
-    {
-        auto &blockObj = it.value();
-        if (blockIsHier(blockObj))
-        {
-            hierFound = true;
-            auto &subBlocksObj = blockObj["blocks"];
-            const std::string thisName = blockObj["name"];
-            for (auto subIt = subBlocksObj.begin(); subIt != subBlocksObj.end(); ++subIt)
-            {
-                auto &subBlockObj = subIt.value();
-                const std::string subName = subBlockObj["name"];
-                subBlockObj["name"] = thisName+"/"+subName; //heritage name
-                flatBlocksObj[subIt.key()] = subBlockObj;
-            }
-        }
-        else flatBlocksObj[it.key()] = blockObj;
-    }
+    std::vector<std::pair<FlatPort, FlatPort>> conns;
+    if (topObj["blocks"].is_null()) topObj["blocks"] = json::object();
+    gatherFlat(topObj, topId, "", flatBlocksObj, conns);
 
-    //create new connections array folding out depth 1 hierarchies
+    //follow the connections from each source block through the ports of hierarchies
+    std::set<std::pair<FlatPort, FlatPort>> found;
     json flatConnsArray(json::array());
-    for (const auto &connObj : topObj.value("connections", json::array()))
+    for (const auto &conn : conns)
     {
-        for (const auto & resolvedSrc : resolvePorts(topObj, connObj["srcId"].get<std::string>(), connObj["srcName"].get<std::string>(), true))
+        if (not std::get<2>(conn.first).empty()) continue; //not a block
+        std::vector<FlatPort> dsts(1, conn.second);
+        for (size_t i = 0; i < dsts.size(); i++)
         {
-            for (const auto & resolvedDst : resolvePorts(topObj, connObj["dstId"].get<std::string>(), connObj["dstName"].get<std::string>(), false))
+            const auto dst = dsts[i];
+            if (not std::get<2>(dst).empty()) for (const auto &next : conns)
             {
-                json flatConnObj;
-                flatConnObj["srcId"] = resolvedSrc.first;
-                flatConnObj["srcName"] = resolvedSrc.second;
-                flatConnObj["dstId"] = resolvedDst.first;
-                flatConnObj["dstName"] = resolvedDst.second;
-                flatConnsArray.push_back(flatConnObj);
+                if (next.first != dst) continue;
+                if (std::find(dsts.begin(), dsts.end(), next.second) == dsts.end()) dsts.push_back(next.second);
             }
-        }
-    }
-
-    //resolve pass-through connections and totally internal connections
-    for (auto it = blocksObj.begin(); it != blocksObj.end(); ++it)
-    {
-        const auto &blockObj = it.value();
-        if (not blockIsHier(blockObj)) continue;
-
-        for (const auto &subConnObj : blockObj.value("connections", json::array()))
-        {
-            const bool srcIsThis = subConnObj["srcId"].get<std::string>() == it.key();
-            const bool dstIsThis = subConnObj["dstId"].get<std::string>() == it.key();
-
-            //totally internal connection
-            if (not srcIsThis and not dstIsThis) flatConnsArray.push_back(subConnObj);
-
-            //otherwise not a pass-through
-            if (not srcIsThis or not dstIsThis) continue;
-
-            //find sources where the destination is this pass-through
-            for (const auto &connObj_s : topObj.value("connections", json::array()))
+            else if (found.emplace(conn.first, dst).second)
             {
-                if (connObj_s["dstId"].get<std::string>() != it.key()) continue;
-                if (connObj_s["dstName"].get<std::string>() != subConnObj["srcName"].get<std::string>()) continue;
-
-                //find sources where the destination is this pass-through
-                for (const auto &connObj_d : topObj.value("connections", json::array()))
-                {
-                    if (connObj_d["srcId"].get<std::string>() != it.key()) continue;
-                    if (connObj_d["srcName"].get<std::string>() != subConnObj["dstName"].get<std::string>()) continue;
-
-                    json flatConnObj;
-                    flatConnObj["srcId"] = connObj_s["srcId"];
-                    flatConnObj["srcName"] = connObj_s["srcName"];
-                    flatConnObj["dstId"] = connObj_d["dstId"];
-                    flatConnObj["dstName"] = connObj_d["dstName"];
-                    flatConnsArray.push_back(flatConnObj);
-                }
+                json flatConnObj;
+                flatConnObj["srcId"] = std::get<0>(conn.first);
+                flatConnObj["srcName"] = std::get<1>(conn.first);
+                flatConnObj["dstId"] = std::get<0>(dst);
+                flatConnObj["dstName"] = std::get<1>(dst);
+                flatConnsArray.push_back(flatConnObj);
             }
         }
     }
@@ -148,7 +93,6 @@ static bool flattenDump(json &topObj)
     topObj = json::object();
     topObj["blocks"] = flatBlocksObj;
     topObj["connections"] = flatConnsArray;
-    return hierFound;
 }
 
 static json portInfoToObj(const Pothos::PortInfo &portInfo)
@@ -241,8 +185,8 @@ std::string Pothos::Topology::dumpJSON(const std::string &request)
     }
     topObj["connections"] = connsArray;
 
-    //recursive flatten when instructed
-    while (flatten and flattenDump(topObj));
+    //flatten when instructed
+    if (flatten) flattenDump(topObj, this->uid());
 
     //return the string-formatted result
     return topObj.dump(4);
-- 
2.43.0


From 5206b47764040f1bf35b53963ca4fa0c2468ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 34/49] fix: a block that failed to activate is activated by
 the next commit

---
 lib/Framework/TopologyCommit.cpp | 5 +++--
 lib/Framework/WorkerActor.cpp    | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index b66c6ca..44b69d9 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -238,8 +238,9 @@ void topologySubCommit(Pothos::Topology &topology)
     //result list is used to ack all de/activate messages
     std::vector<FutureInfo> infoFutures;
 
-    //send activate to all new blocks not already in active flows
-    for (auto block : getObjSetFromFlowList(newFlows, activeFlatFlows))
+    //send activate to all blocks, those already active ignore this
+    //and those that failed to activate in a previous commit try again
+    for (auto block : getObjSetFromFlowList(flatFlows))
     {
         std::shared_future<void> result(std::async(std::launch::async, setActiveState, block, true));
         infoFutures.push_back(FutureInfo("activate()", block, result));
diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index 2cbb7cd..7c62926 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -180,6 +180,9 @@ void Pothos::WorkerActor::setActiveStateOn(void)
 {
     ActorInterfaceLock lock(this);
 
+    //already activated? just return
+    if (this->activeState) return;
+
     //ensure that every output port gets a buffer manager
     //because connection logic skips over unused ports
     for (const auto &entry : this->outputs)
-- 
2.43.0


From 8ff0ef5eb5aa57600367550a6ecb561f56699476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 35/49] fix: unsubscribing an output without a local buffer
 manager does not fail

---
 lib/Framework/WorkerActor.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index 7c62926..cce52ed 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -104,11 +104,6 @@ void Pothos::WorkerActor::ensureOutputBufferManagerNoLock(const std::string &nam
         catch (...){}
         port.bufferManagerSetup(mgr);
     }
-
-    //ensure that a buffer manager has been installed
-    if (not port._bufferManager) throw RuntimeException(
-        "Pothos::WorkerActor::ensureBufferManager()",
-        Poco::format("%s[%s] has no buffer manager set", block->getName(), name));
 }
 
 /***********************************************************************
@@ -139,7 +134,7 @@ void Pothos::WorkerActor::subscribeInput(const std::string &action, const std::s
     //empty subscribers, don't hold onto the buffer manager so it can be cleaned up
     if (subscribers.empty()) bufferManagerTmpCache[false][myPortName].reset();
 
-    //when unsubscripted, ensure that we have a local buffer manager
+    //when unsubscripted, use a local buffer manager when the block has one
     if (subscribers.empty()) this->ensureOutputBufferManagerNoLock(myPortName);
 
     this->updatePorts();
@@ -188,6 +183,9 @@ void Pothos::WorkerActor::setActiveStateOn(void)
     for (const auto &entry : this->outputs)
     {
         this->ensureOutputBufferManagerNoLock(entry.first);
+        if (not entry.second->isSignal() and not entry.second->_bufferManager) throw RuntimeException(
+            "Pothos::WorkerActor::ensureBufferManager()",
+            Poco::format("%s[%s] has no buffer manager set", block->getName(), entry.first));
     }
 
     POTHOS_EXCEPTION_TRY
-- 
2.43.0


From 6a8ba12e2f060fbdbadee7c92719f71410529968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:47 +0000
Subject: [PATCH 36/49] fix: a commit that finds no suitable buffer managers
 changes nothing

---
 lib/Framework/TopologyCommit.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index 44b69d9..d096e96 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -54,8 +54,10 @@ static void setOutputBufferManager(const Port &src, const Pothos::Proxy &manager
     src.obj.get("_actor").call("setOutputBufferManager", src.name, manager);
 }
 
-static void installBufferManagers(const std::vector<Flow> &flatFlows)
+static std::unordered_map<Port, Pothos::Proxy> findBufferManagers(const std::vector<Flow> &flatFlows)
 {
+    std::unordered_map<Port, Pothos::Proxy> managers;
+
     //map of a source port to all destination ports
     std::unordered_map<Port, std::vector<Port>> srcs;
     for (const auto &flow : flatFlows)
@@ -66,10 +68,7 @@ static void installBufferManagers(const std::vector<Flow> &flatFlows)
         }
     }
 
-    //result list is used to ack all install messages
-    std::vector<FutureInfo> infoFutures;
-
-    //for each source port -- install managers
+    //for each source port -- find the manager
     for (const auto &pair : srcs)
     {
         auto src = pair.first;
@@ -114,7 +113,22 @@ static void installBufferManagers(const std::vector<Flow> &flatFlows)
             manager = getBufferManager(src, dstDomain, false);
         }
 
-        std::shared_future<void> result(std::async(std::launch::async, setOutputBufferManager, src, manager));
+        managers[src] = manager;
+    }
+
+    return managers;
+}
+
+static void installBufferManagers(const std::unordered_map<Port, Pothos::Proxy> &managers)
+{
+    //result list is used to ack all install messages
+    std::vector<FutureInfo> infoFutures;
+
+    //for each source port -- install managers
+    for (const auto &pair : managers)
+    {
+        const auto &src = pair.first;
+        std::shared_future<void> result(std::async(std::launch::async, setOutputBufferManager, src, pair.second));
         infoFutures.push_back(FutureInfo(Poco::format("setOutputBufferManager(%s)", src.name), src.obj, result));
     }
 
@@ -225,6 +239,9 @@ void topologySubCommit(Pothos::Topology &topology)
         if (std::find(flatFlows.begin(), flatFlows.end(), flow) == flatFlows.end()) oldFlows.push_back(flow);
     }
 
+    //find buffer managers for all new flows, on failure nothing has changed
+    const auto managers = findBufferManagers(newFlows);
+
     //add new data acceptors
     updateFlows(newFlows, "add");
 
@@ -233,7 +250,7 @@ void topologySubCommit(Pothos::Topology &topology)
 
     //install buffer managers on sources for all new flows
     //Sometimes this will replace previous buffer managers.
-    installBufferManagers(newFlows);
+    installBufferManagers(managers);
 
     //result list is used to ack all de/activate messages
     std::vector<FutureInfo> infoFutures;
-- 
2.43.0


From 1884d3991a7d4f7490bb668d3b5bb143ec8049f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:10 +0000
Subject: [PATCH 37/49] fix: a call without a name in a topology description is
 rejected

---
 lib/Framework/TopologyMakeJSON.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Framework/TopologyMakeJSON.cpp b/lib/Framework/TopologyMakeJSON.cpp
index 751082a..4970564 100644
--- a/lib/Framework/TopologyMakeJSON.cpp
+++ b/lib/Framework/TopologyMakeJSON.cpp
@@ -134,6 +134,8 @@ static Pothos::Proxy makeBlock(
     const auto &callsArray = blockObj.value("calls", json::array());
     for (const auto &callArray : callsArray)
     {
+        if (not callArray.is_array() or callArray.empty()) throw Pothos::DataFormatException(
+            "Pothos::Topology::make()", "blocks["+id+"] calls must be arrays with a call name");
         auto name = callArray[0].get<std::string>();
         const auto callArgs = evalArgsArray(evaluator, callArray, 1/*offset*/);
         try
-- 
2.43.0


From 51d63337eb2c06a444142c094acdca619ba18f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:47 +0000
Subject: [PATCH 38/49] fix: block IDs in a topology description must be unique

---
 lib/Framework/TopologyMakeJSON.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Framework/TopologyMakeJSON.cpp b/lib/Framework/TopologyMakeJSON.cpp
index 4970564..4a0dd28 100644
--- a/lib/Framework/TopologyMakeJSON.cpp
+++ b/lib/Framework/TopologyMakeJSON.cpp
@@ -204,6 +204,8 @@ std::shared_ptr<Pothos::Topology> Pothos::Topology::make(const std::string &json
         if (not blockObj.count("id")) throw Pothos::DataFormatException(
             "Pothos::Topology::make()", "blocks["+std::to_string(i)+"] missing 'id' field");
         const auto id = blockObj["id"].get<std::string>();
+        if (blocks.count(id) != 0) throw Pothos::DataFormatException(
+            "Pothos::Topology::make()", "blocks["+std::to_string(i)+"] 'id' field is not unique: " + id);
         blocks[id] = makeBlock(registry, globals, blockObj);
 
         //set the thread pool
-- 
2.43.0


From e2c40933a57cb65ad0b0d2ab7a0dc95639fe8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:08 +0000
Subject: [PATCH 39/49] fix: a circular buffer is not made of mappings at other
 addresses than requested

---
 lib/Framework/SharedBufferUnix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Framework/SharedBufferUnix.cpp b/lib/Framework/SharedBufferUnix.cpp
index da55b32..408fba7 100644
--- a/lib/Framework/SharedBufferUnix.cpp
+++ b/lib/Framework/SharedBufferUnix.cpp
@@ -186,6 +186,9 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         tmpFd, off_t(0));
     if (mapPtr0 == MAP_FAILED) this->errorOut("mmap(0)");
 
+    //the requested address is only a hint, the memory could have been taken meanwhile
+    if (mapPtr0 != virtualAddr2X) this->errorOut("mmap(0) address");
+
     mapPtr1 = mmap(
         (void *)(size_t(virtualAddr2X) + numBytes),
         numBytes,
@@ -193,6 +196,7 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         MAP_SHARED,
         tmpFd, off_t(0));
     if (mapPtr1 == MAP_FAILED) this->errorOut("mmap(1)");
+    if (size_t(mapPtr1) != size_t(virtualAddr2X) + numBytes) this->errorOut("mmap(1) address");
 }
 
 /***********************************************************************
-- 
2.43.0


From 36f3c869c387260b585623863c3439c146841d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:55 +0000
Subject: [PATCH 40/49] fix: a file that cannot be mapped is not left open

---
 lib/Framework/MemoryMappedBufferContainer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Framework/MemoryMappedBufferContainer.cpp b/lib/Framework/MemoryMappedBufferContainer.cpp
index 306c11e..c0e16ae 100644
--- a/lib/Framework/MemoryMappedBufferContainer.cpp
+++ b/lib/Framework/MemoryMappedBufferContainer.cpp
@@ -67,10 +67,14 @@ public:
         _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, fd, 0);
         if(!_buffer || (MAP_FAILED == _buffer))
         {
-            throw Pothos::IOException("mmap", ::strerror(errno));
+            const int errnoSave = errno;
+            ::close(fd);
+            throw Pothos::IOException("mmap", ::strerror(errnoSave));
         }
 
-        throwErrnoOnFailure<Pothos::FileException>(::close(fd));
+        const int closeCode = ::close(fd);
+        if(closeCode < 0) ::munmap(_buffer, _length);
+        throwErrnoOnFailure<Pothos::FileException>(closeCode);
     }
 
     ~Impl()
-- 
2.43.0


From cc7a5422d8df017a7225a79184cb6e6ac3c059ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:57 +0000
Subject: [PATCH 41/49] fix: ports are added to and removed from a running
 block in exclusion of its work

Connecting a numbered port that does not exist yet allocates it, and the
last disconnect deletes it again; both changed the port containers of the
block while its worker thread could be using them.
---
 lib/Framework/WorkerActorPortAllocation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index 42e7f7b..0c0b24b 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -106,11 +106,13 @@ void Pothos::WorkerActor::allocateSlot(const std::string &name)
 
 void Pothos::WorkerActor::autoAllocateInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames, name);
 }
 
 void Pothos::WorkerActor::autoAllocateOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames, name);
 }
 
@@ -171,10 +173,12 @@ void Pothos::WorkerActor::autoDeletePort(const std::string &name, PortsType &por
 
 void Pothos::WorkerActor::autoDeleteInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames);
 }
 
 void Pothos::WorkerActor::autoDeleteOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames);
 }
-- 
2.43.0


From 9bf25c22e31ea2c9ddbd18064f375f3a86c6ce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:46 +0000
Subject: [PATCH 42/49] fix: calling a method does not look through the outputs
 while they may change

A method call searched the output ports for a signal of that name before it
had exclusive access to the block, racing with a thread that connects the
block and thereby adds a numbered output.
---
 lib/Framework/Block.cpp                     | 14 +++++++++-----
 lib/Framework/WorkerActor.hpp               |  1 +
 lib/Framework/WorkerActorPortAllocation.cpp |  1 +
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/Framework/Block.cpp b/lib/Framework/Block.cpp
index a98c0ae..b09aee3 100644
--- a/lib/Framework/Block.cpp
+++ b/lib/Framework/Block.cpp
@@ -209,12 +209,16 @@ Pothos::Object Pothos::Block::opaqueCallHandler(const std::string &name, const P
 Pothos::Object Pothos::Block::opaqueCallMethod(const std::string &name, const Pothos::Object *inputArgs, const size_t numArgs) const
 {
     //call into a signal
-    auto out = _actor->outputs.find(name);
-    if (out != _actor->outputs.end() and out->second->isSignal())
+    //only signals are looked up here: the other outputs may change while another thread connects this block
+    if (_actor->signalNames.count(name) != 0)
     {
-        const ObjectVector args(inputArgs, inputArgs+numArgs);
-        out->second->postMessage(Object(args));
-        return Object();
+        auto out = _actor->outputs.find(name);
+        if (out != _actor->outputs.end() and out->second->isSignal())
+        {
+            const ObjectVector args(inputArgs, inputArgs+numArgs);
+            out->second->postMessage(Object(args));
+            return Object();
+        }
     }
 
     //otherwise its a regular method
diff --git a/lib/Framework/WorkerActor.hpp b/lib/Framework/WorkerActor.hpp
index b2d9d7a..2a6234a 100644
--- a/lib/Framework/WorkerActor.hpp
+++ b/lib/Framework/WorkerActor.hpp
@@ -66,6 +66,7 @@ public:
     bool activeState;
     std::atomic<int> activityIndicator;
     std::set<std::string> automaticSlots;
+    std::set<std::string> signalNames;
     std::map<std::string, std::unique_ptr<InputPort>> inputs;
     std::map<std::string, std::unique_ptr<OutputPort>> outputs;
     std::map<bool, std::map<std::string, std::map<std::string, std::string>>> bufferModeCache;
diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index 0c0b24b..f43c0a8 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -96,6 +96,7 @@ void Pothos::WorkerActor::allocateSignal(const std::string &name)
 {
     this->allocateOutput(name, "", "");
     this->outputs[name]->_isSignal = true;
+    this->signalNames.insert(name);
 }
 
 void Pothos::WorkerActor::allocateSlot(const std::string &name)
-- 
2.43.0


From be0dd1e34b5979333195892a142b1bb4f9010b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:47 +0000
Subject: [PATCH 43/49] fix: the wait mode of a thread pool is atomic

Registering and unregistering a task switched the wait mode off and on again
while the threads of the pool were reading it without synchronization.
---
 lib/Framework/ThreadEnvironment.cpp | 10 ++++------
 lib/Framework/ThreadEnvironment.hpp |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/Framework/ThreadEnvironment.cpp b/lib/Framework/ThreadEnvironment.cpp
index f432141..8c6bea9 100644
--- a/lib/Framework/ThreadEnvironment.cpp
+++ b/lib/Framework/ThreadEnvironment.cpp
@@ -28,8 +28,7 @@ void ThreadEnvironment::registerTask(void *handle, TaskData::Task task, TaskData
     std::lock_guard<std::mutex> lock(_registrationMutex);
 
     //disable wait mode
-    bool waitModeEnabled = false;
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    const bool waitModeEnabled = _waitModeEnabled.exchange(false);
 
     //register the new task and bump the signature to notify threads
     {
@@ -56,7 +55,7 @@ void ThreadEnvironment::registerTask(void *handle, TaskData::Task task, TaskData
     }
 
     //restore wait mode
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    _waitModeEnabled = waitModeEnabled;
 }
 
 void ThreadEnvironment::unregisterTask(void *handle)
@@ -65,8 +64,7 @@ void ThreadEnvironment::unregisterTask(void *handle)
     std::shared_ptr<TaskData> data;
 
     //disable wait mode
-    bool waitModeEnabled = false;
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    const bool waitModeEnabled = _waitModeEnabled.exchange(false);
 
     //unregister the new task and bump the signature to notify threads
     {
@@ -102,7 +100,7 @@ void ThreadEnvironment::unregisterTask(void *handle)
     while (not data.unique()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
 
     //restore wait mode
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    _waitModeEnabled = waitModeEnabled;
 }
 
 /*!
diff --git a/lib/Framework/ThreadEnvironment.hpp b/lib/Framework/ThreadEnvironment.hpp
index 78337db..3013784 100644
--- a/lib/Framework/ThreadEnvironment.hpp
+++ b/lib/Framework/ThreadEnvironment.hpp
@@ -106,7 +106,7 @@ private:
     Pothos::ThreadPoolArgs _args;
 
     //whether or not waiting is allowed based on args
-    bool _waitModeEnabled;
+    std::atomic<bool> _waitModeEnabled;
 
     //map of handle handles to tasks
     std::map<void *, std::shared_ptr<TaskData>> _handleToTask;
-- 
2.43.0


From 578bae8edf916befbc81764e31a05b5de46ceba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 44/49] fix: the number of received buffers is counted
 atomically

The upstream thread counts the buffers it pushes into an input port while
the block itself and the statistics query read the count.
---
 include/Pothos/Framework/InputPort.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Pothos/Framework/InputPort.hpp b/include/Pothos/Framework/InputPort.hpp
index 09f325b..034ec53 100644
--- a/include/Pothos/Framework/InputPort.hpp
+++ b/include/Pothos/Framework/InputPort.hpp
@@ -17,6 +17,7 @@
 #include <Pothos/Framework/BufferAccumulator.hpp>
 #include <Pothos/Util/RingDeque.hpp>
 #include <Pothos/Util/SpinLock.hpp>
+#include <atomic>
 #include <string>
 
 namespace Pothos {
@@ -219,7 +220,7 @@ private:
 
     //port stats
     unsigned long long _totalElements;
-    unsigned long long _totalBuffers;
+    std::atomic<unsigned long long> _totalBuffers; //counted by the pushing thread
     unsigned long long _totalLabels;
     unsigned long long _totalMessages;
 
-- 
2.43.0


From 8a3c1d78b6249dc1c557ab1133cf19e73310ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:10 +0000
Subject: [PATCH 45/49] fix: a buffer found to be unshared was released before
 by its other readers

In-place processing writes into an input buffer when its use count says that
nobody else refers to it, but a relaxed load of the count did not order the
writes after the reads of a reader that dropped its reference before.
---
 include/Pothos/Framework/ManagedBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index 4c6214b..31fdedb 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -251,13 +251,13 @@ inline bool Pothos::ManagedBuffer::operator<(const ManagedBuffer &rhs) const
 inline bool Pothos::ManagedBuffer::unique(void) const
 {
     if (_impl == nullptr) return false;
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    return _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 inline size_t Pothos::ManagedBuffer::useCount(void) const
 {
     if (_impl == nullptr) return 0;
-    return _impl->counter.load(std::memory_order_relaxed);
+    return _impl->counter.load(std::memory_order_acquire);
 }
 
 inline void Pothos::ManagedBuffer::setNextBuffer(const ManagedBuffer &next)
-- 
2.43.0


From 2f3bbb3c5608bcb1a89b6a5b2fc428dc99043201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:35 +0000
Subject: [PATCH 46/49] fix: the failure of a remote connection reaches every
 waiting call

A call that failed to receive a reply gave up the input stream and noted the
failure without the lock and after waking the others, so that another call
could miss the notification and wait forever, or read from the dead stream.
A reply that names no call is a failure of the connection as well.
---
 lib/Remote/RemoteProxy.cpp | 14 ++++++++++++--
 lib/Remote/RemoteProxy.hpp |  3 ++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 10bd940..de9acc3 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -52,6 +52,12 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
             return reply;
         }
 
+        //another thread found that the connection has failed
+        if (not connectionActive)
+        {
+            throw Pothos::IOException("RemoteProxyEnvironment::transact()", "connection inactive");
+        }
+
         //a thread is blocking on the input stream wait here
         if (isBlocking)
         {
@@ -64,22 +70,26 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
         isBlocking = true;
         lock.unlock();
         Pothos::ObjectKwargs replyArgs;
+        size_t replyTid(0);
         POTHOS_EXCEPTION_TRY
         {
             replyArgs = recvDatagram(is);
+            replyTid = replyArgs.at("tid").convert<size_t>();
         }
         POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
         {
+            //change the state under the lock, all waiters find out
+            lock.lock();
             isBlocking = false;
-            isCond.notify_all();
             connectionActive = false;
+            lock.unlock();
+            isCond.notify_all();
             throw Pothos::IOException("RemoteProxyEnvironment::recvDatagram()", ex.message());
         }
         lock.lock();
         isBlocking = false;
 
         //this is our thread ID, reply args
-        const size_t replyTid(replyArgs.at("tid"));
         if (replyTid == tid)
         {
             lock.unlock();
diff --git a/lib/Remote/RemoteProxy.hpp b/lib/Remote/RemoteProxy.hpp
index b9842c1..04f70a4 100644
--- a/lib/Remote/RemoteProxy.hpp
+++ b/lib/Remote/RemoteProxy.hpp
@@ -5,6 +5,7 @@
 #include <Pothos/Config.hpp>
 #include <Pothos/Proxy.hpp>
 #include <Pothos/Object/Containers.hpp>
+#include <atomic>
 #include <mutex>
 #include <condition_variable>
 
@@ -72,7 +73,7 @@ public:
     std::istream &is;
     std::ostream &os;
     const std::string name;
-    bool connectionActive;
+    std::atomic<bool> connectionActive;
 
     std::mutex osMutex;
     std::mutex isMutex;
-- 
2.43.0


From 085bb977588bc955e7ebb03761c13b68950305af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 47/49] fix: a value that cannot be serialized fails only its
 own remote call

---
 lib/Remote/RemoteProxy.cpp         |  4 +++-
 lib/Remote/RemoteProxyDatagram.cpp |  1 +
 lib/Remote/ServerHandler.cpp       | 14 +++++++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index de9acc3..2a8db61 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -32,7 +32,9 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
     {
-        connectionActive = false;
+        //nothing was written when only the serialization failed
+        std::lock_guard<std::mutex> lock(osMutex);
+        if (not os) connectionActive = false;
         throw Pothos::IOException("RemoteProxyEnvironment::sendDatagram()", ex.message());
     }
 
diff --git a/lib/Remote/RemoteProxyDatagram.cpp b/lib/Remote/RemoteProxyDatagram.cpp
index c9f7fef..140d515 100644
--- a/lib/Remote/RemoteProxyDatagram.cpp
+++ b/lib/Remote/RemoteProxyDatagram.cpp
@@ -191,6 +191,7 @@ void sendDatagram(std::ostream &os, const Pothos::ObjectKwargs &reqArgs)
 {
     Pothos::Object request(reqArgs);
     PRPCDatagramObuf(os, request);
+    if (not os) throw Pothos::IOException("sendDatagram()", "stream error");
 }
 
 Pothos::ObjectKwargs recvDatagram(std::istream &is)
diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 586fb6c..6207d4e 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -171,7 +171,19 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
     }
 
     //serialize the reply
-    sendDatagram(os, replyArgs);
+    POTHOS_EXCEPTION_TRY
+    {
+        sendDatagram(os, replyArgs);
+    }
+    POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
+    {
+        //nothing was written when only the serialization failed
+        if (not os) throw;
+        Pothos::ObjectKwargs errorArgs;
+        errorArgs["tid"] = replyArgs["tid"];
+        errorArgs["errorMsg"] = Pothos::Object(ex.displayText());
+        sendDatagram(os, errorArgs);
+    }
 
     return done;
 }
-- 
2.43.0


From 105a89882d8afa7d896880037f8ff05577e9574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 48/49] fix: a converted argument of a remote call is kept
 until the call is made

---
 lib/Remote/RemoteProxyHandle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/RemoteProxyHandle.cpp b/lib/Remote/RemoteProxyHandle.cpp
index f53c0ad..180499c 100644
--- a/lib/Remote/RemoteProxyHandle.cpp
+++ b/lib/Remote/RemoteProxyHandle.cpp
@@ -37,9 +37,11 @@ Pothos::Proxy RemoteProxyHandle::call(const std::string &name, const Pothos::Pro
     req["action"] = Pothos::Object("call");
     req["handleID"] = Pothos::Object(this->remoteID);
     req["name"] = Pothos::Object(name);
+    //keep the handles: a converted argument must remain on the server until the call is made
+    std::vector<std::shared_ptr<RemoteProxyHandle>> handles(numArgs);
     for (size_t i = 0; i < numArgs; i++)
     {
-        std::shared_ptr<RemoteProxyHandle> handle;
+        auto &handle = handles[i];
         try
         {
             handle = env->getHandle(args[i]);
-- 
2.43.0


From 014a0d2f5b0f744fbcd7c489118fb24c7615b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:32 +0000
Subject: [PATCH 49/49] fix: converting a buffer to a vector type counts its
 elements once

The number of output elements was multiplied by the dimension of the output
type instead of divided by it, so the result was longer than its memory.
---
 lib/Framework/BufferConvert.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/Framework/BufferConvert.cpp b/lib/Framework/BufferConvert.cpp
index 64ac6f8..228a9a7 100644
--- a/lib/Framework/BufferConvert.cpp
+++ b/lib/Framework/BufferConvert.cpp
@@ -113,11 +113,20 @@ static BufferConvertImpl &getBufferConvertImpl(void)
 /***********************************************************************
  * conversion implementation
  **********************************************************************/
+//! The number of output elements needed for this number of primitive elements
+static size_t getNumOutElems(const Pothos::DType &outDType, const size_t primElems)
+{
+    const auto dimension = outDType.dimension();
+    if (dimension == 0 or (primElems % dimension) != 0) throw Pothos::BufferConvertError(
+        "Pothos::BufferChunk::convert("+outDType.toString()+")", "can't fill a whole number of elements");
+    return primElems/dimension;
+}
+
 Pothos::BufferChunk Pothos::BufferChunk::convert(const DType &outDType, const size_t numElems_) const
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outDType.size()/outDType.elemSize();
+    const auto outElems = getNumOutElems(outDType, primElems);
 
     //same dtype or integers of same type (ignore signedness)
     if (outDType.elemType() == this->dtype.elemType() or (
@@ -145,7 +154,7 @@ std::pair<Pothos::BufferChunk, Pothos::BufferChunk> Pothos::BufferChunk::convert
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outDType.size()/outDType.elemSize();
+    const auto outElems = getNumOutElems(outDType, primElems);
 
     auto it = getBufferConvertImpl().convertComplexMap.find(dtypeIOToHash(this->dtype, outDType));
     if (it == getBufferConvertImpl().convertComplexMap.end()) throw Pothos::BufferConvertError(
@@ -161,7 +170,7 @@ size_t Pothos::BufferChunk::convert(const BufferChunk &out, const size_t numElem
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*out.dtype.size()/out.dtype.elemSize();
+    const auto outElems = getNumOutElems(out.dtype, primElems);
 
     if (out.elements() < outElems) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convert(buffer)", "insufficient input buffer");
@@ -178,7 +187,7 @@ size_t Pothos::BufferChunk::convertComplex(const BufferChunk &outRe, const Buffe
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outRe.dtype.size()/outRe.dtype.elemSize();
+    const auto outElems = getNumOutElems(outRe.dtype, primElems);
 
     if (not (outRe.dtype == outIm.dtype)) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convertComplex(bufferRe, bufferIm)", "buffer DType mismatch");
-- 
2.43.0


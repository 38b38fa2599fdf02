From c0fbffd2edde5881a582e774fdf01aaed60c24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:14 +0000
Subject: [PATCH 01/16] fix: RingDeque copy self-assignment discarded every
 element

---
 include/Pothos/Util/RingDeque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Pothos/Util/RingDeque.hpp b/include/Pothos/Util/RingDeque.hpp
index d0cf340..7ea893d 100644
--- a/include/Pothos/Util/RingDeque.hpp
+++ b/include/Pothos/Util/RingDeque.hpp
@@ -177,6 +177,7 @@ RingDeque<T, A>::RingDeque(RingDeque<T, A> &&other):
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 {
+    if (this == &other) return *this;
     this->clear();
     this->set_capacity(other.capacity());
     for (size_t i = 0; i < other.size(); i++)
-- 
2.43.0


From b5e05f19e99784c6a851a3127a0bbee32710d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:21 +0000
Subject: [PATCH 02/16] fix: SharedBuffer sub-range check accepted ranges whose
 end overflows the address space

---
 lib/Framework/SharedBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/SharedBuffer.cpp b/lib/Framework/SharedBuffer.cpp
index 712d538..9768401 100644
--- a/lib/Framework/SharedBuffer.cpp
+++ b/lib/Framework/SharedBuffer.cpp
@@ -36,7 +36,8 @@ Pothos::SharedBuffer::SharedBuffer(const size_t address, const size_t length, co
 {
     if (_alias != 0) _alias += _address - buffer.getAddress();
     const bool beginInRange = (_address >= buffer.getAddress())/* and (_address < buffer.getAddress() + buffer.getLength())*/;
-    const bool endInRange = (_address + _length <= std::max(buffer.getAlias(), buffer.getAddress()) + buffer.getLength());
+    const size_t bufferEnd = std::max(buffer.getAlias(), buffer.getAddress()) + buffer.getLength();
+    const bool endInRange = (_address <= bufferEnd and _length <= bufferEnd - _address); //avoids overflow of address + length
     if (not beginInRange or not endInRange)
     {
         throw SharedBufferError("Pothos::SharedBuffer()", "not a subset");
-- 
2.43.0


From 9bc24947d5e87a3d2c8aaef8656003e4ae928df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:21 +0000
Subject: [PATCH 03/16] fix: BufferChunk::getAlias returned an address past the
 mapping at the start of the second mapping

---
 include/Pothos/Framework/BufferChunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 299f121..50ab516 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -407,7 +407,7 @@ inline size_t Pothos::BufferChunk::getAlias(void) const
 {
     const auto &buffer = getBuffer();
     if (buffer.getAlias() == 0) return 0;
-    if (address > buffer.getAlias()) return address - buffer.getAliasOffset();
+    if (address >= buffer.getAlias()) return address - buffer.getAliasOffset();
     else return address + buffer.getAliasOffset();
 }
 
-- 
2.43.0


From 2634ca9e2fca610f66b01bad8bfb422a773fd362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:52 +0000
Subject: [PATCH 04/16] fix: ManagedBuffer copy self-assignment released a
 buffer that was still held

---
 include/Pothos/Framework/ManagedBuffer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index bf308cd..b707b1c 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -221,9 +221,11 @@ inline Pothos::ManagedBuffer::ManagedBuffer(ManagedBuffer &&obj) noexcept:
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuffer &obj)
 {
+    //take the new reference first, so self-assignment cannot drop the last one
+    Impl *impl = obj._impl;
+    if (impl != nullptr) impl->incr();
     if (_impl != nullptr) _impl->decr();
-    this->_impl = obj._impl;
-    if (_impl != nullptr) _impl->incr();
+    this->_impl = impl;
     return *this;
 }
 
-- 
2.43.0


From 2aa0ff75600d0ccd106fd3a39afccd22c83bc603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:52 +0000
Subject: [PATCH 05/16] fix: BufferChunk copy self-assignment released chained
 buffers that were still held

---
 include/Pothos/Framework/BufferChunk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 50ab516..f5c615e 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -350,6 +350,7 @@ inline Pothos::BufferChunk::~BufferChunk(void)
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = other.address;
     length = other.length;
-- 
2.43.0


From fc76e6d1eb014996ee0d4d51b59d3dabaecb4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:28 +0000
Subject: [PATCH 06/16] fix: Object copy self-assignment freed the value it
 still referred to

---
 lib/Object/Object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 20339c3..2f0ed87 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -87,9 +87,11 @@ Pothos::Object::operator bool(void) const
 
 Pothos::Object &Pothos::Object::operator=(const Object &rhs)
 {
+    //take the new reference first, so self-assignment never frees the value
+    auto impl = rhs._impl;
+    incr(impl);
     decr(_impl);
-    _impl = rhs._impl;
-    incr(_impl);
+    _impl = impl;
     return *this;
 }
 
-- 
2.43.0


From 6acf5f9c58a09f96c4d0657985916a66b26e40d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:28 +0000
Subject: [PATCH 07/16] fix: Object::unique() and ref() on an empty object
 dereferenced a null pointer

---
 lib/Object/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 2f0ed87..e549cec 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -105,7 +105,7 @@ Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 
 bool Pothos::Object::unique(void) const
 {
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    return _impl != nullptr and _impl->counter.load(std::memory_order_relaxed) == 1;
 }
 
 std::string Pothos::Object::getTypeString(void) const
-- 
2.43.0


From b27c20ddfc8863a77dcdb2e45018460c6e92b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:31 +0000
Subject: [PATCH 08/16] fix: archived negative 64-bit integers needing five or
 more bytes were read back wrong

---
 include/Pothos/Archive/Numbers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index c728386..d6ffcb5 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -138,7 +138,7 @@ typename std::enable_if<
 
     //sign extend the remaining bits when negative
     const auto signbit = byte & 0x40;
-    if (signbit != 0 and shift < (sizeof(T)*8)) t |= -(1 << shift);
+    if (signbit != 0 and shift < (sizeof(T)*8)) t |= static_cast<T>(~0ull << shift);
 }
 
 //------------ 32-64 bit unsigned integer types --------------//
-- 
2.43.0


From 5d4ac3b5177ac9a3165ec2982c06a6dfb210b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:31 +0000
Subject: [PATCH 09/16] fix: archived wide strings lost all but the first bytes
 of their text

---
 include/Pothos/Archive/String.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/String.hpp b/include/Pothos/Archive/String.hpp
index c7a09d7..2e396ef 100644
--- a/include/Pothos/Archive/String.hpp
+++ b/include/Pothos/Archive/String.hpp
@@ -22,7 +22,7 @@ template<typename Archive, typename T, typename Traits, typename Allocator>
 void save(Archive &ar, const std::basic_string<T, Traits, Allocator> &t, const unsigned int)
 {
     ar << unsigned(t.size());
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar << bo;
 }
 
@@ -32,7 +32,7 @@ void load(Archive &ar, std::basic_string<T, Traits, Allocator> &t, const unsigne
     unsigned size(0);
     ar >> size;
     t.resize(size);
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar >> bo;
 }
 
-- 
2.43.0


From 399a9ac8e96aac6081e2f0cbcae5491d967bde7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:43 +0000
Subject: [PATCH 10/16] fix: numeric object conversion accepted NaN and out of
 range values at the 64-bit limits

---
 lib/Object/Builtin/ConvertCommonImpl.hpp | 27 ++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/Object/Builtin/ConvertCommonImpl.hpp b/lib/Object/Builtin/ConvertCommonImpl.hpp
index d74c016..09524ff 100644
--- a/lib/Object/Builtin/ConvertCommonImpl.hpp
+++ b/lib/Object/Builtin/ConvertCommonImpl.hpp
@@ -12,6 +12,7 @@
 #include <Pothos/Callable.hpp>
 #include <Poco/Format.h>
 #include <limits>
+#include <cmath> //ldexp
 #include <complex>
 #include <string>
 #include <vector>
@@ -42,12 +43,34 @@ typedef std::complex<double> cdouble;
  * type conversion checkers
  **********************************************************************/
 
-//! check if the input value can fit into the output type
+//! integer to integer: compare exactly, a double cannot represent every 64-bit value
 template <typename OutType, typename InType>
-void convertNumCheck(const InType &in)
+typename std::enable_if<std::is_integral<OutType>::value and std::is_integral<InType>::value, bool>::type
+convertNumFits(const InType &in)
+{
+    if (in < InType(0)) return sllong(in) >= sllong(std::numeric_limits<OutType>::lowest()) and std::is_signed<OutType>::value;
+    return ullong(in) <= ullong(std::numeric_limits<OutType>::max());
+}
+
+//! floating point involved: NaN does not fit into an integer, nor does the power of two above its maximum
+template <typename OutType, typename InType>
+typename std::enable_if<not (std::is_integral<OutType>::value and std::is_integral<InType>::value), bool>::type
+convertNumFits(const InType &in)
 {
     if (double(in) > double(std::numeric_limits<OutType>::max()) or //too large
         double(in) < double(std::numeric_limits<OutType>::lowest())) //too small
+    {
+        return false;
+    }
+    return not std::is_integral<OutType>::value or
+        double(in) < std::ldexp(1.0, std::numeric_limits<OutType>::digits);
+}
+
+//! check if the input value can fit into the output type
+template <typename OutType, typename InType>
+void convertNumCheck(const InType &in)
+{
+    if (not convertNumFits<OutType>(in))
     {
         throw Pothos::RangeException(Poco::format("value %s out of range for output type %s",
             std::to_string(in), Pothos::Util::typeInfoToString(typeid(OutType))));
-- 
2.43.0


From 06f6c0e4d03c17b97452ef253cc4eb92179ce7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:25 +0000
Subject: [PATCH 11/16] fix: accumulator pop after require could continue in
 memory that does not hold the stream

---
 include/Pothos/Framework/BufferAccumulator.hpp |  2 +-
 lib/Framework/BufferAccumulator.cpp            | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/Pothos/Framework/BufferAccumulator.hpp b/include/Pothos/Framework/BufferAccumulator.hpp
index 914e115..89289ad 100644
--- a/include/Pothos/Framework/BufferAccumulator.hpp
+++ b/include/Pothos/Framework/BufferAccumulator.hpp
@@ -86,7 +86,7 @@ public:
 private:
     Util::RingDeque<BufferChunk> _queue;
     size_t _bytesAvailable;
-    bool _inPoolBuffer;
+    size_t _poolTailBytes; //end of a pool buffer in front that is also in memory right before front+1
     BufferPool _pool;
 };
 
diff --git a/lib/Framework/BufferAccumulator.cpp b/lib/Framework/BufferAccumulator.cpp
index 7dc7476..0c77fab 100644
--- a/lib/Framework/BufferAccumulator.cpp
+++ b/lib/Framework/BufferAccumulator.cpp
@@ -16,7 +16,7 @@
 Pothos::BufferAccumulator::BufferAccumulator(void):
     _queue(64/*arbitrary*/),
     _bytesAvailable(0),
-    _inPoolBuffer(false)
+    _poolTailBytes(0)
 {
     //never let the queue become empty -- hold an empty buffer
     if (_queue.empty()) _queue.push_front(BufferChunk());
@@ -26,7 +26,7 @@ void Pothos::BufferAccumulator::clear(void)
 {
     _queue.clear();
     _bytesAvailable = 0;
-    _inPoolBuffer = false;
+    _poolTailBytes = 0;
     _pool.clear();
 
     //never let the queue become empty -- hold an empty buffer
@@ -128,11 +128,11 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     const size_t queueSize = queue.size();
 
     //If the front buffer is from the pool,
-    //and the remainder bytes are in front+1,
+    //and the remainder bytes were copied from front+1,
     //then pop the front and move into front+1.
     if (
-        _inPoolBuffer and queue.size() > 1 and //pool in front
-        queue.front().length <= (queue[1].address - queue[1].getBuffer().getAddress()))
+        _poolTailBytes != 0 and queue.size() > 1 and //pool in front
+        queue.front().length <= _poolTailBytes)
     {
         queue[1].address -= queue.front().length;
         queue[1].length += queue.front().length;
@@ -161,7 +161,7 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     }
 
     //clear the pool buffer state when the queue size shrinks
-    if (_inPoolBuffer and queueSize != queue.size()) _inPoolBuffer = false;
+    if (queueSize != queue.size()) _poolTailBytes = 0;
 
     //pop all of the front-most consumed buffers
     while (not queue.empty() and queue.front().length == 0) queue.pop_front();
@@ -187,7 +187,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     if (_bytesAvailable < numBytes and queue.size() == 1 and
         numBytes <= queue.front().getBuffer().getLength()) return;
 
-    //Actually this is ok: assert(not _inPoolBuffer);
+    //Actually this is ok: a pool buffer may already be in front.
     //The smaller pool buffer in front will be absorbed and popped.
 
     //get a buffer that can hold the required bytes
@@ -197,6 +197,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     newBuffer.length = 0;
 
     //copy from the queue into the new buffer
+    _poolTailBytes = 0;
     while (not queue.empty())
     {
         //copy the front buffer into the new buffer
@@ -220,12 +221,12 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
             assert(newBuffBytes == 0);
             f.length -= copyBytes;
             f.address += copyBytes;
+            _poolTailBytes = copyBytes;
             break;
         }
     }
 
     //finally store the new buffer to the front
-    _inPoolBuffer = true;
     queue.push_front(std::move(newBuffer));
 }
 
-- 
2.43.0


From bfa528647f91db6a4fc7650e2354c164eb843f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:16 +0000
Subject: [PATCH 12/16] fix: a chunk that spans buffers of more than 2 GiB gave
 them back while still referring to them

---
 lib/Framework/BufferChunk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Framework/BufferChunk.cpp b/lib/Framework/BufferChunk.cpp
index 94553c4..5458510 100644
--- a/lib/Framework/BufferChunk.cpp
+++ b/lib/Framework/BufferChunk.cpp
@@ -50,7 +50,7 @@ void Pothos::BufferChunk::_incrNextBuffers(void)
     auto mb = _managedBuffer._impl;
     if (mb == nullptr) return;
 
-    int lengthRemain = this->getEnd() - getBuffer().getEnd();
+    auto lengthRemain = static_cast<long long>(this->getEnd() - getBuffer().getEnd());
     while (lengthRemain > 0)
     {
         mb = mb->nextBuffer;
-- 
2.43.0


From b62ea1754b388041d2b6f5b5ffa92efd6303b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:47 +0000
Subject: [PATCH 13/16] fix: DType markup took trailing text and negative
 numbers as the dimension

---
 lib/Framework/DType.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Framework/DType.cpp b/lib/Framework/DType.cpp
index 9b5397c..5414e98 100644
--- a/lib/Framework/DType.cpp
+++ b/lib/Framework/DType.cpp
@@ -182,6 +182,12 @@ static ElementTypes parseMarkupName(const std::string &markup, size_t &dimension
     const auto alias = Poco::trim(markup.substr(0, commaPos));
     const auto dimStr = Poco::trim(markup.substr(commaPos+1));
 
+    //stoull would ignore trailing text and wrap negative numbers
+    if (dimStr.find_first_not_of("0123456789") != std::string::npos)
+    {
+        throw Pothos::DTypeUnknownError("Pothos::DType("+markup+")", "can't parse markup: dimension must be a number");
+    }
+
     try
     {
         dimension = size_t(std::stoull(dimStr));
-- 
2.43.0


From 7fa142301d0b45cee7a0211ebdda605c153152d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:47 +0000
Subject: [PATCH 14/16] fix: PluginPath accepted the empty text, which is no
 path

---
 lib/Plugin/Path.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Plugin/Path.cpp b/lib/Plugin/Path.cpp
index 0e0d3e7..c65e790 100644
--- a/lib/Plugin/Path.cpp
+++ b/lib/Plugin/Path.cpp
@@ -8,6 +8,7 @@
 static void validatePathString(const std::string &path)
 {
     if (path == "/") return; //root path is ok, but may be funny for tokenizer since it ends in /
+    if (path.empty()) throw Pothos::PluginPathError("Pothos::PluginPath()", "must start with root slash");
     bool first = true;
     for (const auto &name : Poco::StringTokenizer(path, "/"))
     {
-- 
2.43.0


From caf44516579cd6fd8c707d9362b65511658978ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:47 +0000
Subject: [PATCH 15/16] fix: PluginPath of two paths threw when one of them was
 the root

---
 lib/Plugin/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/Path.cpp b/lib/Plugin/Path.cpp
index c65e790..c4ea00b 100644
--- a/lib/Plugin/Path.cpp
+++ b/lib/Plugin/Path.cpp
@@ -45,7 +45,9 @@ Pothos::PluginPath::PluginPath(const std::string &path):
 }
 
 Pothos::PluginPath::PluginPath(const PluginPath &path0, const PluginPath &path1):
-    _path(path0._path + path1._path) //should always be valid because of individual PluginPath rules
+    _path((path0._path == "/")? path1._path : //don't join with only root /
+        (path1._path == "/")? path0._path :
+        path0._path + path1._path) //should always be valid because of individual PluginPath rules
 {
     validatePathString(_path);
 }
-- 
2.43.0


From 95ccb6c66033e25accb018e5babea377f73134d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:47 +0000
Subject: [PATCH 16/16] fix: registry look-ups inserted nodes while holding
 only the shared lock

---
 lib/Plugin/Registry.cpp | 58 ++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 08b25b7..d616976 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -47,6 +47,19 @@ static RegistryEntry &getRegistryRoot(void)
     return regRoot;
 }
 
+//look up an entry without modifying the tree (the caller may only hold the shared lock)
+static const RegistryEntry *findRegistryEntry(const Pothos::PluginPath &path)
+{
+    const RegistryEntry *root = &getRegistryRoot();
+    for (const auto &name : path.listNodes())
+    {
+        const auto it = root->nodes.find(name);
+        if (it == root->nodes.end()) return nullptr;
+        root = &it->second;
+    }
+    return root;
+}
+
 /***********************************************************************
  * plugin event handler
  **********************************************************************/
@@ -188,17 +201,10 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
 Pothos::Plugin Pothos::PluginRegistry::get(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     //throw if the root does not have a plugin
-    if (not root->hasPlugin)
+    if (root == nullptr or not root->hasPlugin)
     {
         throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("+path.toString()+")", "plugin path not found");
     }
@@ -242,49 +248,29 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 bool Pothos::PluginRegistry::empty(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return not root->hasPlugin;
+    return root == nullptr or not root->hasPlugin;
 }
 
 bool Pothos::PluginRegistry::exists(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    return root->getNumPlugins() != 0;
+    return root != nullptr and root->getNumPlugins() != 0;
 }
 
 std::vector<std::string> Pothos::PluginRegistry::list(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     std::vector<std::string> nodes;
+    if (root == nullptr) return nodes;
     for (const auto &name : root->nodeNamesOrdered)
     {
-        if (root->nodes[name].getNumPlugins() != 0) nodes.push_back(name);
+        if (root->nodes.at(name).getNumPlugins() != 0) nodes.push_back(name);
     }
     return nodes;
 }
-- 
2.43.0


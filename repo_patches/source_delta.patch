From 897ba0cbe5d54d911e39aeb3c97df764d833fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 01/11] fix: avoid signed overflow when shrinking towards a
 distant target

---
 include/rapidcheck/shrink/Shrink.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 9ac4bc2..1aad78a 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -18,7 +18,9 @@ public:
 
   TowardsSeq(T value, T target)
       : m_value(value)
-      , m_diff((target < value) ? (value - target) : (target - value))
+      , m_diff((target < value)
+                   ? (static_cast<UInt>(value) - static_cast<UInt>(target))
+                   : (static_cast<UInt>(target) - static_cast<UInt>(value)))
       , m_down(target < value) {}
 
   Maybe<T> operator()() {
-- 
2.43.0


From faefe4e3120986e3a26616945b72b76126037f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 02/11] fix: shrink::character no longer truncates wide
 characters to char

---
 include/rapidcheck/shrink/Shrink.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 1aad78a..4eae308 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -190,13 +190,11 @@ Seq<bool> boolean(bool value) { return value ? seq::just(false) : Seq<bool>(); }
 template <typename T>
 Seq<T> character(T value) {
   const auto &locale = std::locale::classic();
-  auto shrinks = seq::cast<T>(seq::concat(
-      seq::fromContainer(std::string("abc")),
-      // TODO this seems a bit hacky
-      std::islower(static_cast<char>(value), locale)
-          ? Seq<char>()
-          : seq::just(static_cast<char>(std::tolower(value, locale))),
-      seq::fromContainer(std::string("ABC123 \n"))));
+  auto shrinks = seq::concat(
+      seq::cast<T>(seq::fromContainer(std::string("abc"))),
+      std::islower(value, locale) ? Seq<T>()
+                                  : seq::just(std::tolower(value, locale)),
+      seq::cast<T>(seq::fromContainer(std::string("ABC123 \n"))));
 
   return seq::takeWhile(std::move(shrinks), [=](T x) { return x != value; });
 }
-- 
2.43.0


From bbb7b54e1baeb995d75e2c4c78cdd4cb36f6ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 03/11] fix: reject over-long compact integers instead of
 shifting past the width

---
 include/rapidcheck/detail/Serialization.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index a0e8e1e..322ebec 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -189,6 +189,10 @@ Iterator deserializeCompact(Iterator begin, Iterator end, T &output) {
   UInt uvalue = 0;
   int nbits = 0;
   for (auto it = begin; it != end; it++) {
+    if (nbits >= std::numeric_limits<UInt>::digits) {
+      throw SerializationException("Compact integer is too long");
+    }
+
     auto x = static_cast<std::uint8_t>(*it);
     uvalue |= static_cast<UInt>(x & 0x7F) << nbits;
     nbits += 7;
-- 
2.43.0


From 40bc850889605050637cbb48128f9be3adcb8af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 04/11] fix: don't reserve memory for an unverified string
 length when deserializing

---
 include/rapidcheck/detail/Serialization.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index 322ebec..d8f6c60 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -55,7 +55,6 @@ Iterator deserialize(Iterator begin, Iterator end, std::string &output) {
   iit = deserializeCompact(iit, end, len);
 
   output.clear();
-  output.reserve(len);
   while (output.size() < len) {
     if (iit == end) {
       throw SerializationException("Unexpected end of input");
-- 
2.43.0


From 3e37e274cb395108a65b066dc361c44fa2384d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 05/11] fix: validate the end of a serialized random engine

---
 include/rapidcheck/Random.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index a2559b8..5a27935 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -28,6 +28,7 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   iit = deserializeCompact(iit, end, counter);
   // Normally, the block is calculated lazily if counter is divisible by 4 so
   // let's simulate this.
+  output.m_block.fill(0);
   if (counter != 0) {
     const auto blki =
         ((counter - 1) % std::tuple_size<Random::Block>::value) + 1;
@@ -39,7 +40,15 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   }
   output.m_counter = counter;
 
-  output.m_bitsi = *iit;
+  if (iit == end) {
+    throw SerializationException("Unexpected end of input");
+  }
+  const auto bitsi = static_cast<std::uint8_t>(*iit);
+  if ((bitsi > Random::kBits) ||
+      ((bitsi < Random::kBits) && ((output.m_bits >> bitsi) != 0))) {
+    throw SerializationException("Invalid random engine state");
+  }
+  output.m_bitsi = bitsi;
   return ++iit;
 }
 
-- 
2.43.0


From 4f167b720add723b841995307669a2af6409c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 06/11] fix: assigning from an empty Seq dereferenced a null
 pointer

---
 include/rapidcheck/Seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/Seq.hpp b/include/rapidcheck/Seq.hpp
index 5962f1f..eac8f55 100644
--- a/include/rapidcheck/Seq.hpp
+++ b/include/rapidcheck/Seq.hpp
@@ -55,7 +55,7 @@ Seq<T>::Seq(const Seq &other)
 
 template <typename T>
 Seq<T> &Seq<T>::operator=(const Seq &rhs) {
-  m_impl = rhs.m_impl->copy();
+  m_impl = rhs.m_impl ? rhs.m_impl->copy() : nullptr;
   return *this;
 }
 
-- 
2.43.0


From f1304e0f2790ac7cc6dfc6d4d9c0dbf582ecf7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 07/11] fix: compute sizes and the discard limit without
 integer overflow

With large max_size or max_success * max_discard_ratio the products in
sizeFor and searchProperty overflowed int: properties then gave up after
the first discard or ran with meaningless sizes.
---
 src/detail/Testing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 8ec5b6e..0f9e5d5 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -12,17 +12,18 @@ int sizeFor(const TestParams &params, int i) {
   // multiple of the number of sizes (i.e. maxSize + 1). Another thing is that
   // we always want to ensure that the maximum size is actually used.
 
-  const auto numSizes = params.maxSize + 1;
+  // 64 bits since the intermediate results may not fit in an `int`.
+  const auto numSizes = static_cast<int64_t>(params.maxSize) + 1;
   const auto numRegular = (params.maxSuccess / numSizes) * numSizes;
   if (i < numRegular) {
-    return i % numSizes;
+    return static_cast<int>(i % numSizes);
   }
 
   const auto numRest = params.maxSuccess - numRegular;
   if (numRest == 1) {
     return 0;
   } else {
-    return ((i % numSizes) * params.maxSize) / (numRest - 1);
+    return static_cast<int>(((i % numSizes) * params.maxSize) / (numRest - 1));
   }
 }
 
@@ -37,7 +38,8 @@ SearchResult searchProperty(const Property &property,
   searchResult.numDiscarded = 0;
   searchResult.tags.reserve(params.maxSuccess);
 
-  const auto maxDiscard = params.maxDiscardRatio * params.maxSuccess;
+  const auto maxDiscard =
+      static_cast<int64_t>(params.maxDiscardRatio) * params.maxSuccess;
 
   auto recentDiscards = 0;
   auto r = Random(params.seed);
-- 
2.43.0


From c5063dd722c469c6d5bcd1f9270885e851623b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:51 +0000
Subject: [PATCH 08/11] fix: destroy the temporary when copy-assigning a
 Variant of another alternative

---
 include/rapidcheck/detail/Variant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index e1b2da0..f9f4c16 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -169,6 +169,7 @@ operator=(const Variant &rhs) noexcept(
     copy(rhs.m_typeIndex, &tmp, &rhs.m_storage);
     destroy(m_typeIndex, &m_storage);
     move(rhs.m_typeIndex, &m_storage, &tmp);
+    destroy(rhs.m_typeIndex, &tmp);
     m_typeIndex = rhs.m_typeIndex;
   }
 
-- 
2.43.0


From e3393119a38e6b4a61d7b8e96afa77644f8dfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:33 +0000
Subject: [PATCH 09/11] fix: Variant assignment from a value keeps the held
 object when copying throws

---
 include/rapidcheck/detail/Variant.h   |  7 +++++--
 include/rapidcheck/detail/Variant.hpp | 10 +++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/rapidcheck/detail/Variant.h b/include/rapidcheck/detail/Variant.h
index bc17851..b61ea96 100644
--- a/include/rapidcheck/detail/Variant.h
+++ b/include/rapidcheck/detail/Variant.h
@@ -29,14 +29,17 @@ public:
   template <typename T,
             typename = typename std::enable_if<
                 std::is_nothrow_move_constructible<T>::value>::type>
-  Variant &operator=(const T &value) noexcept;
+  Variant &operator=(const T &value) noexcept(
+      std::is_nothrow_copy_constructible<T>::value
+          &&std::is_nothrow_copy_assignable<T>::value);
 
   /// Move-assigns the given value to this `Variant`.
   template <typename T,
             typename = typename std::enable_if<
                 !std::is_reference<T>::value &&
                 std::is_nothrow_constructible<Decay<T>, T &&>::value>::type>
-  Variant &operator=(T &&value) noexcept;
+  Variant &operator=(T &&value) noexcept(
+      std::is_nothrow_move_assignable<T>::value);
 
   /// Returns `true` if this variant has type `T`.
   template <typename T>
diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index f9f4c16..1f97a05 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -38,16 +38,20 @@ Variant<Type, Types...>::Variant(T &&value) noexcept(
 template <typename Type, typename... Types>
 template <typename T, typename>
 Variant<Type, Types...> &Variant<Type, Types...>::
-operator=(const T &value) noexcept {
+operator=(const T &value) noexcept(
+    std::is_nothrow_copy_constructible<T>::value
+        &&std::is_nothrow_copy_assignable<T>::value) {
   static_assert(isValidType<T>(), "T is not a valid type of this variant");
 
   const auto newIndex = indexOfType<T>();
   if (newIndex == m_typeIndex) {
     *reinterpret_cast<T *>(&m_storage) = value;
   } else {
+    // Copying may throw so do it while we still hold the previous value
+    T tmp(value);
     destroy(m_typeIndex, &m_storage);
     m_typeIndex = newIndex;
-    new (&m_storage) T(value);
+    new (&m_storage) T(std::move(tmp));
   }
   return *this;
 }
@@ -55,7 +59,7 @@ operator=(const T &value) noexcept {
 template <typename Type, typename... Types>
 template <typename T, typename>
 Variant<Type, Types...> &Variant<Type, Types...>::
-operator=(T &&value) noexcept {
+operator=(T &&value) noexcept(std::is_nothrow_move_assignable<T>::value) {
   static_assert(isValidType<T>(), "T is not a valid type of this variant");
 
   const auto newIndex = indexOfType<T>();
-- 
2.43.0


From 924a93adff714f10c40d68b502eec2d673f476d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:15 +0000
Subject: [PATCH 10/11] fix: keep the key function alive for the shrinks of
 unique containers

UniqueContainerStrategy::shrinkElements captured `this` in the lazily
evaluated shrink sequence. The strategy lives in the Shrinkable that the
sequence was taken from, so a sequence outliving that Shrinkable used the
function after its destruction.
---
 include/rapidcheck/gen/Container.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index adfd837..15a440c 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -266,13 +266,15 @@ public:
       keys->insert(m_f(shrinkable.value()));
     }
 
+    // The shrinks may outlive this object so they need a copy of the function.
+    const auto f = m_f;
     return shrink::eachElement(shrinkables,
-                               [this, keys](const Shrinkable<T> &s) {
-                                 const auto valueKey = m_f(s.value());
+                               [f, keys](const Shrinkable<T> &s) {
+                                 const auto valueKey = f(s.value());
                                  return seq::filter(
                                      s.shrinks(),
-                                     [this, keys, valueKey](const Shrinkable<T> &shrink) {
-                                       const auto shrinkKey = m_f(shrink.value());
+                                     [f, keys, valueKey](const Shrinkable<T> &shrink) {
+                                       const auto shrinkKey = f(shrink.value());
                                        return (!(valueKey < shrinkKey) &&
                                                !(shrinkKey < valueKey)) ||
                                            keys->count(shrinkKey) == 0;
-- 
2.43.0


From ada653b31c32236fd50fa808ba96beed51e20f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:14 +0000
Subject: [PATCH 11/11] fix: reject configuration values with trailing
 characters

---
 src/detail/Configuration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/Configuration.cpp b/src/detail/Configuration.cpp
index 5a9f91c..5eb91f8 100644
--- a/src/detail/Configuration.cpp
+++ b/src/detail/Configuration.cpp
@@ -48,7 +48,8 @@ template <typename T>
 void fromString(const std::string &str, T &out, bool &ok) {
   std::istringstream in(std::move(str));
   in >> out;
-  ok = !in.fail();
+  // The value is only valid if there is nothing after it
+  ok = !in.fail() && (in >> std::ws).eof();
 }
 
 template <typename T>
-- 
2.43.0


From 6eba54086ef419e3ce28d6e78512593bdc6cb49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 01/36] fix: BigIntegerImpl::assign(int64) keeps a zero top
 limb for 4294967295 and overflows on INT64_MIN

---
 src/BigIntegerImpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1aca459..4ce0963 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -489,11 +489,10 @@ BigIntegerImpl & BigIntegerImpl::assign(std::int64_t i64) {
     }
 
     m_flags = i64 > 0 ? BNFlag::POSITIVE : BNFlag::NEGATIVE;
-    if (i64 < 0) i64 = -i64;
-
     std::uint64_t u64 = i64;
+    if (i64 < 0) u64 = 0 - u64; // INT64_MIN has no positive counterpart in int64
 
-    int u32s = u64 < std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
+    int u32s = u64 <= std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
     m_mag.slice(0, u32s);
 
     std::uint32_t * p = reinterpret_cast<std::uint32_t*>(&u64);
-- 
2.43.0


From 16c8deda5187531f2cd6977d477712ed92512f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 02/36] fix: operator>(int64, BigInteger) compared the operands
 the wrong way round

---
 src/BigInteger.cpp | 678 ++++++++++++++++++++++-----------------------
 1 file changed, 339 insertions(+), 339 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 6ee4f47..8e65de7 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1,339 +1,339 @@
-//
-// Created by 42025 on 2021/4/10.
-//
-#include "BigInteger.h"
-#include "Status.h"
-#include "BigIntegerImpl.h"
-#include "errInfos.h"
-
-// using namespace pgbn;
-
-PGBN_NAMESPACE_START namespace detail {
-
-static inline BigInteger getU64Max() {
-    BigInteger res;
-
-    res.assign(std::numeric_limits<std::int64_t>::max());
-    res <<= 1;
-    res |= 0x1;
-
-    return res;
-}
-
-} PGBN_NAMESPACE_END
-
-// default
-pgbn::BigInteger::BigInteger() noexcept : m_pImpl(new BigIntegerImpl{}) { }
-
-// construct from BigIntegerImpl
-pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(std::move(impl)) {
-
-}
-
-// copy, only copy ptr-to-impl, copy base-data on write
-pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
-
-// move
-pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(std::move(other.m_pImpl)) {
-    other.m_pImpl = nullptr;
-}
-
-// from POD-integer : only for int64_t
-pgbn::BigInteger::BigInteger(std::int64_t i) : m_pImpl(new BigIntegerImpl{i}) { }
-
-// from Human-String, don't support 'E', like 0|[1-9|A-Z|a-z][0-9|A-Z|a-z]*
-pgbn::BigInteger::BigInteger(const pgbn::StringArg & str, int radix, bool * ok)
-    : m_pImpl(new BigIntegerImpl{str, radix, ok}) { }
-
-// from binary, 2's complement, default little endian
-pgbn::BigInteger::BigInteger(SizeType len, const void * bin, bool little)
-    : m_pImpl(new BigIntegerImpl{bin, len, little}) { }
-
-// destructor
-pgbn::BigInteger::~BigInteger() = default;
-
-// copy assignment, only copy pImpl, using COW
-pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
-    if (this == &other) return *this;
-
-    m_pImpl.reset(new BigIntegerImpl{*other.m_pImpl});
-    return *this;
-}
-
-// move assignment
-pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
-    if (this == &other) return *this;
-
-    m_pImpl = std::move(other.m_pImpl);
-    other.m_pImpl = nullptr;
-
-    return *this;
-}
-
-// assign from other types
-pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
-    m_pImpl->assign(i);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
-    m_pImpl->assign(i);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
-    m_pImpl->fromString(str, radix, ok);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
-    m_pImpl->assign(bin, len, little);
-    return *this;
-}
-
-// to POD-integer
-std::int64_t pgbn::BigInteger::getInt64(bool * ok) const {
-    if (
-        *this > std::numeric_limits<std::int64_t>::max() ||
-        *this < std::numeric_limits<std::int64_t>::min()
-    ) {
-        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
-        ok && (*ok = false);
-        return std::numeric_limits<std::int64_t>::max();
-    }
-
-    auto u64 = m_pImpl->toU64();
-    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
-    ok && (*ok = true);
-    return static_cast<std::int64_t>(u64);
-}
-
-bool pgbn::BigInteger::tryGetInt64(std::int64_t & result) const {
-    bool ok = true;
-    result = getInt64(&ok);
-    return ok;
-}
-
-std::uint64_t pgbn::BigInteger::getUInt64(bool * ok) const {
-    static const BigInteger MAXU64 = detail::getU64Max();
-
-    if (
-        m_pImpl->flagsContains(BNFlag::NEGATIVE) ||
-        *this > MAXU64
-    ) {
-        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
-        ok && (*ok = false);
-        return std::numeric_limits<std::uint64_t>::max();
-    }
-
-    auto u64 = m_pImpl->toU64();
-    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
-    ok && (*ok = true);
-    return static_cast<std::int64_t>(u64);
-}
-
-bool pgbn::BigInteger::tryGetUInt64(std::uint64_t & result) const {
-    bool ok = true;
-    result = getUInt64(&ok);
-    return ok;
-}
-
-std::uint32_t pgbn::BigInteger::get2sComplement(SizeType i) const {
-    return m_pImpl->getU32(i);
-}
-
-template <>
-std::string pgbn::BigInteger::as<std::string>() const {
-    return this->toString();
-}
-
-#define DEFINE_AS_INTEGER(type) \
-    template <> \
-    type pgbn::BigInteger::as<type>() const { \
-        return static_cast<type>(this->m_pImpl->toU64()); \
-    }
-
-template <>
-bool pgbn::BigInteger::as<bool>() const {
-    return !this->m_pImpl->flagsContains(BNFlag::ZERO);
-}
-
-DEFINE_AS_INTEGER( char               );
-DEFINE_AS_INTEGER( unsigned char      );
-DEFINE_AS_INTEGER( int                );
-DEFINE_AS_INTEGER( unsigned int       );
-DEFINE_AS_INTEGER( short              );
-DEFINE_AS_INTEGER( unsigned short     );
-DEFINE_AS_INTEGER( long               );
-DEFINE_AS_INTEGER( unsigned long      );
-DEFINE_AS_INTEGER( long long          );
-DEFINE_AS_INTEGER( unsigned long long );
-
-// to string
-std::string pgbn::BigInteger::toString(int radix) const {
-    return m_pImpl->toString(radix);
-}
-
-// to binary
-pgbn::SizeType pgbn::BigInteger::copyMagDataTo(void * dest, SizeType maxlen) const {
-    return m_pImpl->copyMagDataTo(dest, maxlen);
-}
-
-// is-
-bool pgbn::BigInteger::isZero() const { return m_pImpl->flagsContains(BNFlag::ZERO); }
-bool pgbn::BigInteger::isOne() const { return m_pImpl->isOne(); }
-bool pgbn::BigInteger::isNegOne() const { return m_pImpl->isNegOne(); }
-bool pgbn::BigInteger::isPositive() const { return m_pImpl->flagsContains(BNFlag::POSITIVE); }
-bool pgbn::BigInteger::isNegative() const { return m_pImpl->flagsContains(BNFlag::NEGATIVE); }
-bool pgbn::BigInteger::isEven() const { return m_pImpl->isEven(); }
-bool pgbn::BigInteger::isOdd() const { return m_pImpl->isOdd(); }
-
-// ++, --, ~, +=, -=, *=, /=, %=, &=, |=, ^=, bool, -(negative), +(positive) : member-functions
-pgbn::BigInteger & pgbn::BigInteger::operator++ () {
-    m_pImpl->inc();
-    return *this;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator++ (int) {
-    BigInteger temp = *this;
-    ++*this;
-    return temp;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator-- () {
-    m_pImpl->dec();
-    return *this;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator-- (int) {
-    BigInteger temp = *this;
-    --*this;
-    return temp;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator~ () const {
-    BigInteger temp = *this;
-    temp.m_pImpl->notSelf();
-    return temp;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator+= (const BigInteger & other) { m_pImpl->addAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator+= (std::int64_t i64)         { m_pImpl->addAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator-= (const BigInteger & other) { m_pImpl->subAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator-= (std::int64_t i64)         { m_pImpl->subAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator*= (const BigInteger & other) { m_pImpl->mulAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator*= (std::int64_t i64)         { m_pImpl->mulAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator/= (const BigInteger & other) { m_pImpl->divAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator/= (std::int64_t i64)         { m_pImpl->divAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator&= (const BigInteger & other) { m_pImpl->andAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator&= (std::int64_t i64)         { m_pImpl->andAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator|= (const BigInteger & other) { m_pImpl->orAssign(*other.m_pImpl); return *this;  }
-pgbn::BigInteger & pgbn::BigInteger::operator|= (std::int64_t i64)         { m_pImpl->orAssign(i64); return *this;    }
-
-pgbn::BigInteger & pgbn::BigInteger::operator^= (const BigInteger & other) { m_pImpl->xorAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator^= (std::int64_t i64)         { m_pImpl->xorAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator%= (const BigInteger & other) {
-    BigIntegerImpl q;
-    m_pImpl->modAssignAndQuotient(*other.m_pImpl, q);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator%= (std::int64_t i64) {
-    BigIntegerImpl q;
-    m_pImpl->modAssignAndQuotient(i64, q);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator<<= (std::uint64_t u64) { m_pImpl->shiftLeftAssign(u64); return *this;  }
-pgbn::BigInteger & pgbn::BigInteger::operator>>= (std::uint64_t u64) { m_pImpl->shiftRightAssign(u64); return *this; }
-
-pgbn::BigInteger pgbn::BigInteger::operator+ () const { return *this; }
-pgbn::BigInteger pgbn::BigInteger::operator- () const { return BigInteger(*this).negate(); }
-
-pgbn::BigInteger pgbn::BigInteger::negated() const { return -*this; }
-pgbn::BigInteger pgbn::BigInteger::absoluted() const { return BigInteger{*this}.abs(); }
-
-pgbn::BigInteger & pgbn::BigInteger::negate() { m_pImpl->negate(); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::abs()    { m_pImpl->abs();    return *this; }
-
-pgbn::BigInteger & pgbn::BigInteger::notSelf() {
-    m_pImpl->notSelf();
-    return *this;
-}
-pgbn::BigInteger & pgbn::BigInteger::notBits() {
-    m_pImpl->notBits();
-    return *this;
-}
-
-int pgbn::BigInteger::cmp(std::int64_t other) const       { return m_pImpl->cmp(BigIntegerImpl{other}); }
-int pgbn::BigInteger::cmp(const BigInteger & other) const { return m_pImpl->cmp(*(other.m_pImpl));      }
-
-// pgbn::BigInteger::operator bool() const { return !m_pImpl->flagsContains(BNFlag::ZERO); }
-
-// +, -, *, /, %, &, |, ^ : friend-functions, make from op-ass operators
-// FIXME: Can Be Better(mul and div)
-pgbn::BigInteger pgbn::operator+ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) += right; }
-pgbn::BigInteger pgbn::operator+ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) += right; }
-pgbn::BigInteger pgbn::operator+ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) += right; }
-
-pgbn::BigInteger pgbn::operator- (const BigInteger & left, const BigInteger & right) { return BigInteger(left) -= right; }
-pgbn::BigInteger pgbn::operator- (const BigInteger & left, std::int64_t right)       { return BigInteger(left) -= right; }
-pgbn::BigInteger pgbn::operator- (std::int64_t left, const BigInteger & right)       { return BigInteger(left) -= right; }
-
-pgbn::BigInteger pgbn::operator* (const BigInteger & left, const BigInteger & right) { return BigInteger(left) *= right; }
-pgbn::BigInteger pgbn::operator* (const BigInteger & left, std::int64_t right)       { return BigInteger(left) *= right; }
-pgbn::BigInteger pgbn::operator* (std::int64_t left, const BigInteger & right)       { return BigInteger(left) *= right; }
-
-pgbn::BigInteger pgbn::operator/ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) /= right; }
-pgbn::BigInteger pgbn::operator/ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) /= right; }
-pgbn::BigInteger pgbn::operator/ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) /= right; }
-
-pgbn::BigInteger pgbn::operator% (const BigInteger & left, const BigInteger & right) { return BigInteger(left) %= right; }
-pgbn::BigInteger pgbn::operator% (const BigInteger & left, std::int64_t right)       { return BigInteger(left) %= right; }
-pgbn::BigInteger pgbn::operator% (std::int64_t left, const BigInteger & right)       { return BigInteger(left) %= right; }
-
-pgbn::BigInteger pgbn::operator& (const BigInteger & left, const BigInteger & right) { return BigInteger(left) &= right; }
-pgbn::BigInteger pgbn::operator& (const BigInteger & left, std::int64_t right)       { return BigInteger(left) &= right; }
-pgbn::BigInteger pgbn::operator& (std::int64_t left, const BigInteger & right)       { return BigInteger(left) &= right; }
-
-pgbn::BigInteger pgbn::operator| (const BigInteger & left, const BigInteger & right) { return BigInteger(left) |= right; }
-pgbn::BigInteger pgbn::operator| (const BigInteger & left, std::int64_t right)       { return BigInteger(left) |= right; }
-pgbn::BigInteger pgbn::operator| (std::int64_t left, const BigInteger & right)       { return BigInteger(left) |= right; }
-
-pgbn::BigInteger pgbn::operator^ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) ^= right; }
-pgbn::BigInteger pgbn::operator^ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) ^= right; }
-pgbn::BigInteger pgbn::operator^ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) ^= right; }
-
-pgbn::BigInteger pgbn::operator<< (const BigInteger & left, std::int64_t right)      { return BigInteger(left) <<= right; }
-pgbn::BigInteger pgbn::operator>> (const BigInteger & left, std::int64_t right)      { return BigInteger(left) >>= right; }
-
-// ==, !=, <, <=, >, >= : friend-functions, from cmp-algorithm
-bool pgbn::operator== (const BigInteger & left, const BigInteger & right) { return left.cmp(right) == 0; }
-bool pgbn::operator== (const BigInteger & left, std::int64_t right)       { return left.cmp(right) == 0; }
-bool pgbn::operator== (std::int64_t left, const BigInteger & right)       { return right.cmp(left) == 0; }
-
-bool pgbn::operator!= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) != 0; }
-bool pgbn::operator!= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) != 0; }
-bool pgbn::operator!= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) != 0; }
-
-bool pgbn::operator<  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) < 0;  }
-bool pgbn::operator<  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) < 0;  }
-bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
-
-bool pgbn::operator<= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) <= 0; }
-bool pgbn::operator<= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) <= 0; }
-bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) >= 0; }
-
-bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
-
-bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
-bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
-bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) <= 0; }
+//
+// Created by 42025 on 2021/4/10.
+//
+#include "BigInteger.h"
+#include "Status.h"
+#include "BigIntegerImpl.h"
+#include "errInfos.h"
+
+// using namespace pgbn;
+
+PGBN_NAMESPACE_START namespace detail {
+
+static inline BigInteger getU64Max() {
+    BigInteger res;
+
+    res.assign(std::numeric_limits<std::int64_t>::max());
+    res <<= 1;
+    res |= 0x1;
+
+    return res;
+}
+
+} PGBN_NAMESPACE_END
+
+// default
+pgbn::BigInteger::BigInteger() noexcept : m_pImpl(new BigIntegerImpl{}) { }
+
+// construct from BigIntegerImpl
+pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(std::move(impl)) {
+
+}
+
+// copy, only copy ptr-to-impl, copy base-data on write
+pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
+
+// move
+pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(std::move(other.m_pImpl)) {
+    other.m_pImpl = nullptr;
+}
+
+// from POD-integer : only for int64_t
+pgbn::BigInteger::BigInteger(std::int64_t i) : m_pImpl(new BigIntegerImpl{i}) { }
+
+// from Human-String, don't support 'E', like 0|[1-9|A-Z|a-z][0-9|A-Z|a-z]*
+pgbn::BigInteger::BigInteger(const pgbn::StringArg & str, int radix, bool * ok)
+    : m_pImpl(new BigIntegerImpl{str, radix, ok}) { }
+
+// from binary, 2's complement, default little endian
+pgbn::BigInteger::BigInteger(SizeType len, const void * bin, bool little)
+    : m_pImpl(new BigIntegerImpl{bin, len, little}) { }
+
+// destructor
+pgbn::BigInteger::~BigInteger() = default;
+
+// copy assignment, only copy pImpl, using COW
+pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
+    if (this == &other) return *this;
+
+    m_pImpl.reset(new BigIntegerImpl{*other.m_pImpl});
+    return *this;
+}
+
+// move assignment
+pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
+    if (this == &other) return *this;
+
+    m_pImpl = std::move(other.m_pImpl);
+    other.m_pImpl = nullptr;
+
+    return *this;
+}
+
+// assign from other types
+pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
+    m_pImpl->assign(i);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
+    m_pImpl->assign(i);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
+    m_pImpl->fromString(str, radix, ok);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
+    m_pImpl->assign(bin, len, little);
+    return *this;
+}
+
+// to POD-integer
+std::int64_t pgbn::BigInteger::getInt64(bool * ok) const {
+    if (
+        *this > std::numeric_limits<std::int64_t>::max() ||
+        *this < std::numeric_limits<std::int64_t>::min()
+    ) {
+        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
+        ok && (*ok = false);
+        return std::numeric_limits<std::int64_t>::max();
+    }
+
+    auto u64 = m_pImpl->toU64();
+    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+    ok && (*ok = true);
+    return static_cast<std::int64_t>(u64);
+}
+
+bool pgbn::BigInteger::tryGetInt64(std::int64_t & result) const {
+    bool ok = true;
+    result = getInt64(&ok);
+    return ok;
+}
+
+std::uint64_t pgbn::BigInteger::getUInt64(bool * ok) const {
+    static const BigInteger MAXU64 = detail::getU64Max();
+
+    if (
+        m_pImpl->flagsContains(BNFlag::NEGATIVE) ||
+        *this > MAXU64
+    ) {
+        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
+        ok && (*ok = false);
+        return std::numeric_limits<std::uint64_t>::max();
+    }
+
+    auto u64 = m_pImpl->toU64();
+    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+    ok && (*ok = true);
+    return static_cast<std::int64_t>(u64);
+}
+
+bool pgbn::BigInteger::tryGetUInt64(std::uint64_t & result) const {
+    bool ok = true;
+    result = getUInt64(&ok);
+    return ok;
+}
+
+std::uint32_t pgbn::BigInteger::get2sComplement(SizeType i) const {
+    return m_pImpl->getU32(i);
+}
+
+template <>
+std::string pgbn::BigInteger::as<std::string>() const {
+    return this->toString();
+}
+
+#define DEFINE_AS_INTEGER(type) \
+    template <> \
+    type pgbn::BigInteger::as<type>() const { \
+        return static_cast<type>(this->m_pImpl->toU64()); \
+    }
+
+template <>
+bool pgbn::BigInteger::as<bool>() const {
+    return !this->m_pImpl->flagsContains(BNFlag::ZERO);
+}
+
+DEFINE_AS_INTEGER( char               );
+DEFINE_AS_INTEGER( unsigned char      );
+DEFINE_AS_INTEGER( int                );
+DEFINE_AS_INTEGER( unsigned int       );
+DEFINE_AS_INTEGER( short              );
+DEFINE_AS_INTEGER( unsigned short     );
+DEFINE_AS_INTEGER( long               );
+DEFINE_AS_INTEGER( unsigned long      );
+DEFINE_AS_INTEGER( long long          );
+DEFINE_AS_INTEGER( unsigned long long );
+
+// to string
+std::string pgbn::BigInteger::toString(int radix) const {
+    return m_pImpl->toString(radix);
+}
+
+// to binary
+pgbn::SizeType pgbn::BigInteger::copyMagDataTo(void * dest, SizeType maxlen) const {
+    return m_pImpl->copyMagDataTo(dest, maxlen);
+}
+
+// is-
+bool pgbn::BigInteger::isZero() const { return m_pImpl->flagsContains(BNFlag::ZERO); }
+bool pgbn::BigInteger::isOne() const { return m_pImpl->isOne(); }
+bool pgbn::BigInteger::isNegOne() const { return m_pImpl->isNegOne(); }
+bool pgbn::BigInteger::isPositive() const { return m_pImpl->flagsContains(BNFlag::POSITIVE); }
+bool pgbn::BigInteger::isNegative() const { return m_pImpl->flagsContains(BNFlag::NEGATIVE); }
+bool pgbn::BigInteger::isEven() const { return m_pImpl->isEven(); }
+bool pgbn::BigInteger::isOdd() const { return m_pImpl->isOdd(); }
+
+// ++, --, ~, +=, -=, *=, /=, %=, &=, |=, ^=, bool, -(negative), +(positive) : member-functions
+pgbn::BigInteger & pgbn::BigInteger::operator++ () {
+    m_pImpl->inc();
+    return *this;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator++ (int) {
+    BigInteger temp = *this;
+    ++*this;
+    return temp;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator-- () {
+    m_pImpl->dec();
+    return *this;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator-- (int) {
+    BigInteger temp = *this;
+    --*this;
+    return temp;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator~ () const {
+    BigInteger temp = *this;
+    temp.m_pImpl->notSelf();
+    return temp;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator+= (const BigInteger & other) { m_pImpl->addAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator+= (std::int64_t i64)         { m_pImpl->addAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator-= (const BigInteger & other) { m_pImpl->subAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator-= (std::int64_t i64)         { m_pImpl->subAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator*= (const BigInteger & other) { m_pImpl->mulAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator*= (std::int64_t i64)         { m_pImpl->mulAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator/= (const BigInteger & other) { m_pImpl->divAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator/= (std::int64_t i64)         { m_pImpl->divAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator&= (const BigInteger & other) { m_pImpl->andAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator&= (std::int64_t i64)         { m_pImpl->andAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator|= (const BigInteger & other) { m_pImpl->orAssign(*other.m_pImpl); return *this;  }
+pgbn::BigInteger & pgbn::BigInteger::operator|= (std::int64_t i64)         { m_pImpl->orAssign(i64); return *this;    }
+
+pgbn::BigInteger & pgbn::BigInteger::operator^= (const BigInteger & other) { m_pImpl->xorAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator^= (std::int64_t i64)         { m_pImpl->xorAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator%= (const BigInteger & other) {
+    BigIntegerImpl q;
+    m_pImpl->modAssignAndQuotient(*other.m_pImpl, q);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator%= (std::int64_t i64) {
+    BigIntegerImpl q;
+    m_pImpl->modAssignAndQuotient(i64, q);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator<<= (std::uint64_t u64) { m_pImpl->shiftLeftAssign(u64); return *this;  }
+pgbn::BigInteger & pgbn::BigInteger::operator>>= (std::uint64_t u64) { m_pImpl->shiftRightAssign(u64); return *this; }
+
+pgbn::BigInteger pgbn::BigInteger::operator+ () const { return *this; }
+pgbn::BigInteger pgbn::BigInteger::operator- () const { return BigInteger(*this).negate(); }
+
+pgbn::BigInteger pgbn::BigInteger::negated() const { return -*this; }
+pgbn::BigInteger pgbn::BigInteger::absoluted() const { return BigInteger{*this}.abs(); }
+
+pgbn::BigInteger & pgbn::BigInteger::negate() { m_pImpl->negate(); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::abs()    { m_pImpl->abs();    return *this; }
+
+pgbn::BigInteger & pgbn::BigInteger::notSelf() {
+    m_pImpl->notSelf();
+    return *this;
+}
+pgbn::BigInteger & pgbn::BigInteger::notBits() {
+    m_pImpl->notBits();
+    return *this;
+}
+
+int pgbn::BigInteger::cmp(std::int64_t other) const       { return m_pImpl->cmp(BigIntegerImpl{other}); }
+int pgbn::BigInteger::cmp(const BigInteger & other) const { return m_pImpl->cmp(*(other.m_pImpl));      }
+
+// pgbn::BigInteger::operator bool() const { return !m_pImpl->flagsContains(BNFlag::ZERO); }
+
+// +, -, *, /, %, &, |, ^ : friend-functions, make from op-ass operators
+// FIXME: Can Be Better(mul and div)
+pgbn::BigInteger pgbn::operator+ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) += right; }
+pgbn::BigInteger pgbn::operator+ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) += right; }
+pgbn::BigInteger pgbn::operator+ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) += right; }
+
+pgbn::BigInteger pgbn::operator- (const BigInteger & left, const BigInteger & right) { return BigInteger(left) -= right; }
+pgbn::BigInteger pgbn::operator- (const BigInteger & left, std::int64_t right)       { return BigInteger(left) -= right; }
+pgbn::BigInteger pgbn::operator- (std::int64_t left, const BigInteger & right)       { return BigInteger(left) -= right; }
+
+pgbn::BigInteger pgbn::operator* (const BigInteger & left, const BigInteger & right) { return BigInteger(left) *= right; }
+pgbn::BigInteger pgbn::operator* (const BigInteger & left, std::int64_t right)       { return BigInteger(left) *= right; }
+pgbn::BigInteger pgbn::operator* (std::int64_t left, const BigInteger & right)       { return BigInteger(left) *= right; }
+
+pgbn::BigInteger pgbn::operator/ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) /= right; }
+pgbn::BigInteger pgbn::operator/ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) /= right; }
+pgbn::BigInteger pgbn::operator/ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) /= right; }
+
+pgbn::BigInteger pgbn::operator% (const BigInteger & left, const BigInteger & right) { return BigInteger(left) %= right; }
+pgbn::BigInteger pgbn::operator% (const BigInteger & left, std::int64_t right)       { return BigInteger(left) %= right; }
+pgbn::BigInteger pgbn::operator% (std::int64_t left, const BigInteger & right)       { return BigInteger(left) %= right; }
+
+pgbn::BigInteger pgbn::operator& (const BigInteger & left, const BigInteger & right) { return BigInteger(left) &= right; }
+pgbn::BigInteger pgbn::operator& (const BigInteger & left, std::int64_t right)       { return BigInteger(left) &= right; }
+pgbn::BigInteger pgbn::operator& (std::int64_t left, const BigInteger & right)       { return BigInteger(left) &= right; }
+
+pgbn::BigInteger pgbn::operator| (const BigInteger & left, const BigInteger & right) { return BigInteger(left) |= right; }
+pgbn::BigInteger pgbn::operator| (const BigInteger & left, std::int64_t right)       { return BigInteger(left) |= right; }
+pgbn::BigInteger pgbn::operator| (std::int64_t left, const BigInteger & right)       { return BigInteger(left) |= right; }
+
+pgbn::BigInteger pgbn::operator^ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) ^= right; }
+pgbn::BigInteger pgbn::operator^ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) ^= right; }
+pgbn::BigInteger pgbn::operator^ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) ^= right; }
+
+pgbn::BigInteger pgbn::operator<< (const BigInteger & left, std::int64_t right)      { return BigInteger(left) <<= right; }
+pgbn::BigInteger pgbn::operator>> (const BigInteger & left, std::int64_t right)      { return BigInteger(left) >>= right; }
+
+// ==, !=, <, <=, >, >= : friend-functions, from cmp-algorithm
+bool pgbn::operator== (const BigInteger & left, const BigInteger & right) { return left.cmp(right) == 0; }
+bool pgbn::operator== (const BigInteger & left, std::int64_t right)       { return left.cmp(right) == 0; }
+bool pgbn::operator== (std::int64_t left, const BigInteger & right)       { return right.cmp(left) == 0; }
+
+bool pgbn::operator!= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) != 0; }
+bool pgbn::operator!= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) != 0; }
+bool pgbn::operator!= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) != 0; }
+
+bool pgbn::operator<  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) < 0;  }
+bool pgbn::operator<  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) < 0;  }
+bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
+
+bool pgbn::operator<= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) <= 0; }
+bool pgbn::operator<= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) <= 0; }
+bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) >= 0; }
+
+bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
+bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
+bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
+
+bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
+bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
+bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) <= 0; }
-- 
2.43.0


From 562a2bf1fa7d63f3baa9c2f7e35a21900a833c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 03/36] fix: notBits leaves leading zero limbs and a signed
 zero behind

---
 src/BigIntegerImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 4ce0963..1a27377 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1202,6 +1202,9 @@ void BigIntegerImpl::notBits() {
     auto & last = m_mag[len - 1];
     int leadingZeroCnt = util::clz(last);
     last = ~last & (MASK >> leadingZeroCnt);
+
+    detail::eraseZerosSuffix(m_mag); // 去除前导零
+    if (m_mag.count() == 0) beZero();
 }
 
 void BigIntegerImpl::shiftLeftAssign(std::uint64_t u64) {
-- 
2.43.0


From a73207d13d6507ad0371aca02af221147f045b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 04/36] fix: bitwise operators and complement read limbs left
 over from an earlier, longer value

---
 src/BigIntegerImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1a27377..6e8032a 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1106,8 +1106,10 @@ void BigIntegerImpl::modAssignAndQuotient(std::int64_t i64, BigIntegerImpl & q)
 #define DEFINE_BITWISE(operator, otherlen, getU32Index) \
     m_mag.cloneData(); \
     getU32(0); \
-    const SizeType len = std::max(m_mag.count(), otherlen) + 1; \
+    const SizeType oldLen = m_mag.count(); \
+    const SizeType len = std::max(oldLen, otherlen) + 1; \
     m_mag.slice(0, len); \
+    std::fill(m_mag.begin() + oldLen, m_mag.end(), 0); \
     for (SizeType i = 0; i < len; ++i) { \
         m_mag[i] = getU32(i) operator getU32Index; \
     } \
@@ -1165,6 +1167,7 @@ void BigIntegerImpl::notSelf() {
 
     const SizeType len = m_mag.count() + 1;
     m_mag.slice(0, len);
+    m_mag[len - 1] = 0; // what the extension uncovers may be left over from a longer value
     for (SizeType i = 0; i < len; ++i) {
         m_mag[i] = ~getU32(i);
     }
-- 
2.43.0


From f73809e5643b4d77bdc5ecb78c1cc0d957aa5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:03 +0000
Subject: [PATCH 05/36] fix: fromBinary of a negative power of 256 whose byte
 count is not a multiple of four

---
 src/BigIntegerImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 6e8032a..3b78f69 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -716,8 +716,9 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
         SizeType i = 0;
         for (; i < len && bytes[i] == 0; ++i);
 
-        if (i == len) { // - pow2
-            m_mag.append(1);
+        if (i == len) { // - pow2, 即 -(256 ^ len)
+            if (len % 4 == 0) m_mag.append(1);
+            else m_mag[len / 4] = 1U << (8 * (len % 4));
             return *this;
         }          
 
-- 
2.43.0


From 19c139031dd982b02a09052a4e0dc2cbe336d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 06/36] fix: reading a zero numeral left the ok flag and the
 status untouched

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 3b78f69..ae1a4bd 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -556,6 +556,8 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     pos = str.find_first_not_of('0', pos);
     if (pos == StringArg::npos) { // 没有非0位, 就是0
         beZero();
+        PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+        ok && (*ok = true);
         return *this;
     }
 
-- 
2.43.0


From 4b02b88b75c2fa164e0bb6dd1f34d3bb0cff1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 07/36] fix: fromString accepted a numeral whose digits were
 only partly valid

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index ae1a4bd..5d33f0e 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -579,7 +579,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     
     std::uint32_t mag0;
     auto fistCov2U32Result = std::from_chars(cStr + pos, cStr + pos + fistBlockDigitCnt, mag0, radix);
-    if (fistCov2U32Result.ec != std::errc{}) { // to uint32_t出错
+    if (fistCov2U32Result.ec != std::errc{} || fistCov2U32Result.ptr != cStr + pos + fistBlockDigitCnt) { // to uint32_t出错
         PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
         ok && (*ok = false);
         return *this;
@@ -592,7 +592,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     std::uint32_t blockValue = 0;
     while (pos < slen) {
         auto toU32Result = std::from_chars(cStr + pos, cStr + pos + blockSize, blockValue, radix);
-        if (toU32Result.ec != std::errc{}) {
+        if (toU32Result.ec != std::errc{} || toU32Result.ptr != cStr + pos + blockSize) {
             PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
             ok && (*ok = false);
             return *this;
-- 
2.43.0


From 162107930b2bd53b6db8b3083e4fdb3faf6e2785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 08/36] fix: a moved-from BigInteger was a null pointer and
 crashed on assignment and copy

---
 src/BigInteger.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 8e65de7..e318f2a 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -34,8 +34,8 @@ pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(s
 pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
 
 // move
-pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(std::move(other.m_pImpl)) {
-    other.m_pImpl = nullptr;
+pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(new BigIntegerImpl{}) {
+    m_pImpl.swap(other.m_pImpl); // other stays a valid number
 }
 
 // from POD-integer : only for int64_t
@@ -64,8 +64,7 @@ pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
 pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
     if (this == &other) return *this;
 
-    m_pImpl = std::move(other.m_pImpl);
-    other.m_pImpl = nullptr;
+    m_pImpl.swap(other.m_pImpl); // other stays a valid number
 
     return *this;
 }
-- 
2.43.0


From 924d909ef32df1fc67142f2a0e42c9191cff45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 09/36] fix: static mul overwrote a one-limb operand that is
 also the result before reading it

---
 src/BigIntegerImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 5d33f0e..fc0270d 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1345,15 +1345,17 @@ void BigIntegerImpl::mul(BigIntegerImpl & res, const BigIntegerImpl & a, const B
     // 规模较小直接采用小学生算法
     if (alen < KARATSUBA_THRESHOLD || blen < KARATSUBA_THRESHOLD) {
         if (b.m_mag.count() == 1) {
+            const std::uint32_t temp = b.m_mag[0]; // res可能就是b
             res.m_mag = a.m_mag;
             res.m_mag.cloneData();
-            detail::gradSchoolMulInplace(res.m_mag, b.m_mag[0]);
+            detail::gradSchoolMulInplace(res.m_mag, temp);
             return;
         }
         if (a.m_mag.count() == 1) {
+            const std::uint32_t temp = a.m_mag[0]; // res可能就是a
             res.m_mag = b.m_mag;
             res.m_mag.cloneData();
-            detail::gradSchoolMulInplace(res.m_mag, a.m_mag[0]);
+            detail::gradSchoolMulInplace(res.m_mag, temp);
             return;
         }
 
-- 
2.43.0


From 70ef6d76d4c75e67a98bfd24c9e5abc20d755849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 10/36] fix: put back the CRLF line ends of BigInteger.cpp that
 16c8ded had changed

---
 src/BigInteger.cpp | 676 ++++++++++++++++++++++-----------------------
 1 file changed, 338 insertions(+), 338 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index e318f2a..448f7db 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1,338 +1,338 @@
-//
-// Created by 42025 on 2021/4/10.
-//
-#include "BigInteger.h"
-#include "Status.h"
-#include "BigIntegerImpl.h"
-#include "errInfos.h"
-
-// using namespace pgbn;
-
-PGBN_NAMESPACE_START namespace detail {
-
-static inline BigInteger getU64Max() {
-    BigInteger res;
-
-    res.assign(std::numeric_limits<std::int64_t>::max());
-    res <<= 1;
-    res |= 0x1;
-
-    return res;
-}
-
-} PGBN_NAMESPACE_END
-
-// default
-pgbn::BigInteger::BigInteger() noexcept : m_pImpl(new BigIntegerImpl{}) { }
-
-// construct from BigIntegerImpl
-pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(std::move(impl)) {
-
-}
-
-// copy, only copy ptr-to-impl, copy base-data on write
-pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
-
-// move
-pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(new BigIntegerImpl{}) {
-    m_pImpl.swap(other.m_pImpl); // other stays a valid number
-}
-
-// from POD-integer : only for int64_t
-pgbn::BigInteger::BigInteger(std::int64_t i) : m_pImpl(new BigIntegerImpl{i}) { }
-
-// from Human-String, don't support 'E', like 0|[1-9|A-Z|a-z][0-9|A-Z|a-z]*
-pgbn::BigInteger::BigInteger(const pgbn::StringArg & str, int radix, bool * ok)
-    : m_pImpl(new BigIntegerImpl{str, radix, ok}) { }
-
-// from binary, 2's complement, default little endian
-pgbn::BigInteger::BigInteger(SizeType len, const void * bin, bool little)
-    : m_pImpl(new BigIntegerImpl{bin, len, little}) { }
-
-// destructor
-pgbn::BigInteger::~BigInteger() = default;
-
-// copy assignment, only copy pImpl, using COW
-pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
-    if (this == &other) return *this;
-
-    m_pImpl.reset(new BigIntegerImpl{*other.m_pImpl});
-    return *this;
-}
-
-// move assignment
-pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
-    if (this == &other) return *this;
-
-    m_pImpl.swap(other.m_pImpl); // other stays a valid number
-
-    return *this;
-}
-
-// assign from other types
-pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
-    m_pImpl->assign(i);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
-    m_pImpl->assign(i);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
-    m_pImpl->fromString(str, radix, ok);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
-    m_pImpl->assign(bin, len, little);
-    return *this;
-}
-
-// to POD-integer
-std::int64_t pgbn::BigInteger::getInt64(bool * ok) const {
-    if (
-        *this > std::numeric_limits<std::int64_t>::max() ||
-        *this < std::numeric_limits<std::int64_t>::min()
-    ) {
-        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
-        ok && (*ok = false);
-        return std::numeric_limits<std::int64_t>::max();
-    }
-
-    auto u64 = m_pImpl->toU64();
-    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
-    ok && (*ok = true);
-    return static_cast<std::int64_t>(u64);
-}
-
-bool pgbn::BigInteger::tryGetInt64(std::int64_t & result) const {
-    bool ok = true;
-    result = getInt64(&ok);
-    return ok;
-}
-
-std::uint64_t pgbn::BigInteger::getUInt64(bool * ok) const {
-    static const BigInteger MAXU64 = detail::getU64Max();
-
-    if (
-        m_pImpl->flagsContains(BNFlag::NEGATIVE) ||
-        *this > MAXU64
-    ) {
-        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
-        ok && (*ok = false);
-        return std::numeric_limits<std::uint64_t>::max();
-    }
-
-    auto u64 = m_pImpl->toU64();
-    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
-    ok && (*ok = true);
-    return static_cast<std::int64_t>(u64);
-}
-
-bool pgbn::BigInteger::tryGetUInt64(std::uint64_t & result) const {
-    bool ok = true;
-    result = getUInt64(&ok);
-    return ok;
-}
-
-std::uint32_t pgbn::BigInteger::get2sComplement(SizeType i) const {
-    return m_pImpl->getU32(i);
-}
-
-template <>
-std::string pgbn::BigInteger::as<std::string>() const {
-    return this->toString();
-}
-
-#define DEFINE_AS_INTEGER(type) \
-    template <> \
-    type pgbn::BigInteger::as<type>() const { \
-        return static_cast<type>(this->m_pImpl->toU64()); \
-    }
-
-template <>
-bool pgbn::BigInteger::as<bool>() const {
-    return !this->m_pImpl->flagsContains(BNFlag::ZERO);
-}
-
-DEFINE_AS_INTEGER( char               );
-DEFINE_AS_INTEGER( unsigned char      );
-DEFINE_AS_INTEGER( int                );
-DEFINE_AS_INTEGER( unsigned int       );
-DEFINE_AS_INTEGER( short              );
-DEFINE_AS_INTEGER( unsigned short     );
-DEFINE_AS_INTEGER( long               );
-DEFINE_AS_INTEGER( unsigned long      );
-DEFINE_AS_INTEGER( long long          );
-DEFINE_AS_INTEGER( unsigned long long );
-
-// to string
-std::string pgbn::BigInteger::toString(int radix) const {
-    return m_pImpl->toString(radix);
-}
-
-// to binary
-pgbn::SizeType pgbn::BigInteger::copyMagDataTo(void * dest, SizeType maxlen) const {
-    return m_pImpl->copyMagDataTo(dest, maxlen);
-}
-
-// is-
-bool pgbn::BigInteger::isZero() const { return m_pImpl->flagsContains(BNFlag::ZERO); }
-bool pgbn::BigInteger::isOne() const { return m_pImpl->isOne(); }
-bool pgbn::BigInteger::isNegOne() const { return m_pImpl->isNegOne(); }
-bool pgbn::BigInteger::isPositive() const { return m_pImpl->flagsContains(BNFlag::POSITIVE); }
-bool pgbn::BigInteger::isNegative() const { return m_pImpl->flagsContains(BNFlag::NEGATIVE); }
-bool pgbn::BigInteger::isEven() const { return m_pImpl->isEven(); }
-bool pgbn::BigInteger::isOdd() const { return m_pImpl->isOdd(); }
-
-// ++, --, ~, +=, -=, *=, /=, %=, &=, |=, ^=, bool, -(negative), +(positive) : member-functions
-pgbn::BigInteger & pgbn::BigInteger::operator++ () {
-    m_pImpl->inc();
-    return *this;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator++ (int) {
-    BigInteger temp = *this;
-    ++*this;
-    return temp;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator-- () {
-    m_pImpl->dec();
-    return *this;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator-- (int) {
-    BigInteger temp = *this;
-    --*this;
-    return temp;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator~ () const {
-    BigInteger temp = *this;
-    temp.m_pImpl->notSelf();
-    return temp;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator+= (const BigInteger & other) { m_pImpl->addAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator+= (std::int64_t i64)         { m_pImpl->addAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator-= (const BigInteger & other) { m_pImpl->subAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator-= (std::int64_t i64)         { m_pImpl->subAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator*= (const BigInteger & other) { m_pImpl->mulAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator*= (std::int64_t i64)         { m_pImpl->mulAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator/= (const BigInteger & other) { m_pImpl->divAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator/= (std::int64_t i64)         { m_pImpl->divAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator&= (const BigInteger & other) { m_pImpl->andAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator&= (std::int64_t i64)         { m_pImpl->andAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator|= (const BigInteger & other) { m_pImpl->orAssign(*other.m_pImpl); return *this;  }
-pgbn::BigInteger & pgbn::BigInteger::operator|= (std::int64_t i64)         { m_pImpl->orAssign(i64); return *this;    }
-
-pgbn::BigInteger & pgbn::BigInteger::operator^= (const BigInteger & other) { m_pImpl->xorAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator^= (std::int64_t i64)         { m_pImpl->xorAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator%= (const BigInteger & other) {
-    BigIntegerImpl q;
-    m_pImpl->modAssignAndQuotient(*other.m_pImpl, q);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator%= (std::int64_t i64) {
-    BigIntegerImpl q;
-    m_pImpl->modAssignAndQuotient(i64, q);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator<<= (std::uint64_t u64) { m_pImpl->shiftLeftAssign(u64); return *this;  }
-pgbn::BigInteger & pgbn::BigInteger::operator>>= (std::uint64_t u64) { m_pImpl->shiftRightAssign(u64); return *this; }
-
-pgbn::BigInteger pgbn::BigInteger::operator+ () const { return *this; }
-pgbn::BigInteger pgbn::BigInteger::operator- () const { return BigInteger(*this).negate(); }
-
-pgbn::BigInteger pgbn::BigInteger::negated() const { return -*this; }
-pgbn::BigInteger pgbn::BigInteger::absoluted() const { return BigInteger{*this}.abs(); }
-
-pgbn::BigInteger & pgbn::BigInteger::negate() { m_pImpl->negate(); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::abs()    { m_pImpl->abs();    return *this; }
-
-pgbn::BigInteger & pgbn::BigInteger::notSelf() {
-    m_pImpl->notSelf();
-    return *this;
-}
-pgbn::BigInteger & pgbn::BigInteger::notBits() {
-    m_pImpl->notBits();
-    return *this;
-}
-
-int pgbn::BigInteger::cmp(std::int64_t other) const       { return m_pImpl->cmp(BigIntegerImpl{other}); }
-int pgbn::BigInteger::cmp(const BigInteger & other) const { return m_pImpl->cmp(*(other.m_pImpl));      }
-
-// pgbn::BigInteger::operator bool() const { return !m_pImpl->flagsContains(BNFlag::ZERO); }
-
-// +, -, *, /, %, &, |, ^ : friend-functions, make from op-ass operators
-// FIXME: Can Be Better(mul and div)
-pgbn::BigInteger pgbn::operator+ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) += right; }
-pgbn::BigInteger pgbn::operator+ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) += right; }
-pgbn::BigInteger pgbn::operator+ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) += right; }
-
-pgbn::BigInteger pgbn::operator- (const BigInteger & left, const BigInteger & right) { return BigInteger(left) -= right; }
-pgbn::BigInteger pgbn::operator- (const BigInteger & left, std::int64_t right)       { return BigInteger(left) -= right; }
-pgbn::BigInteger pgbn::operator- (std::int64_t left, const BigInteger & right)       { return BigInteger(left) -= right; }
-
-pgbn::BigInteger pgbn::operator* (const BigInteger & left, const BigInteger & right) { return BigInteger(left) *= right; }
-pgbn::BigInteger pgbn::operator* (const BigInteger & left, std::int64_t right)       { return BigInteger(left) *= right; }
-pgbn::BigInteger pgbn::operator* (std::int64_t left, const BigInteger & right)       { return BigInteger(left) *= right; }
-
-pgbn::BigInteger pgbn::operator/ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) /= right; }
-pgbn::BigInteger pgbn::operator/ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) /= right; }
-pgbn::BigInteger pgbn::operator/ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) /= right; }
-
-pgbn::BigInteger pgbn::operator% (const BigInteger & left, const BigInteger & right) { return BigInteger(left) %= right; }
-pgbn::BigInteger pgbn::operator% (const BigInteger & left, std::int64_t right)       { return BigInteger(left) %= right; }
-pgbn::BigInteger pgbn::operator% (std::int64_t left, const BigInteger & right)       { return BigInteger(left) %= right; }
-
-pgbn::BigInteger pgbn::operator& (const BigInteger & left, const BigInteger & right) { return BigInteger(left) &= right; }
-pgbn::BigInteger pgbn::operator& (const BigInteger & left, std::int64_t right)       { return BigInteger(left) &= right; }
-pgbn::BigInteger pgbn::operator& (std::int64_t left, const BigInteger & right)       { return BigInteger(left) &= right; }
-
-pgbn::BigInteger pgbn::operator| (const BigInteger & left, const BigInteger & right) { return BigInteger(left) |= right; }
-pgbn::BigInteger pgbn::operator| (const BigInteger & left, std::int64_t right)       { return BigInteger(left) |= right; }
-pgbn::BigInteger pgbn::operator| (std::int64_t left, const BigInteger & right)       { return BigInteger(left) |= right; }
-
-pgbn::BigInteger pgbn::operator^ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) ^= right; }
-pgbn::BigInteger pgbn::operator^ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) ^= right; }
-pgbn::BigInteger pgbn::operator^ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) ^= right; }
-
-pgbn::BigInteger pgbn::operator<< (const BigInteger & left, std::int64_t right)      { return BigInteger(left) <<= right; }
-pgbn::BigInteger pgbn::operator>> (const BigInteger & left, std::int64_t right)      { return BigInteger(left) >>= right; }
-
-// ==, !=, <, <=, >, >= : friend-functions, from cmp-algorithm
-bool pgbn::operator== (const BigInteger & left, const BigInteger & right) { return left.cmp(right) == 0; }
-bool pgbn::operator== (const BigInteger & left, std::int64_t right)       { return left.cmp(right) == 0; }
-bool pgbn::operator== (std::int64_t left, const BigInteger & right)       { return right.cmp(left) == 0; }
-
-bool pgbn::operator!= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) != 0; }
-bool pgbn::operator!= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) != 0; }
-bool pgbn::operator!= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) != 0; }
-
-bool pgbn::operator<  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) < 0;  }
-bool pgbn::operator<  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) < 0;  }
-bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
-
-bool pgbn::operator<= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) <= 0; }
-bool pgbn::operator<= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) <= 0; }
-bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) >= 0; }
-
-bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
-
-bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
-bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
-bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) <= 0; }
+//
+// Created by 42025 on 2021/4/10.
+//
+#include "BigInteger.h"
+#include "Status.h"
+#include "BigIntegerImpl.h"
+#include "errInfos.h"
+
+// using namespace pgbn;
+
+PGBN_NAMESPACE_START namespace detail {
+
+static inline BigInteger getU64Max() {
+    BigInteger res;
+
+    res.assign(std::numeric_limits<std::int64_t>::max());
+    res <<= 1;
+    res |= 0x1;
+
+    return res;
+}
+
+} PGBN_NAMESPACE_END
+
+// default
+pgbn::BigInteger::BigInteger() noexcept : m_pImpl(new BigIntegerImpl{}) { }
+
+// construct from BigIntegerImpl
+pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(std::move(impl)) {
+
+}
+
+// copy, only copy ptr-to-impl, copy base-data on write
+pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
+
+// move
+pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(new BigIntegerImpl{}) {
+    m_pImpl.swap(other.m_pImpl); // other stays a valid number
+}
+
+// from POD-integer : only for int64_t
+pgbn::BigInteger::BigInteger(std::int64_t i) : m_pImpl(new BigIntegerImpl{i}) { }
+
+// from Human-String, don't support 'E', like 0|[1-9|A-Z|a-z][0-9|A-Z|a-z]*
+pgbn::BigInteger::BigInteger(const pgbn::StringArg & str, int radix, bool * ok)
+    : m_pImpl(new BigIntegerImpl{str, radix, ok}) { }
+
+// from binary, 2's complement, default little endian
+pgbn::BigInteger::BigInteger(SizeType len, const void * bin, bool little)
+    : m_pImpl(new BigIntegerImpl{bin, len, little}) { }
+
+// destructor
+pgbn::BigInteger::~BigInteger() = default;
+
+// copy assignment, only copy pImpl, using COW
+pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
+    if (this == &other) return *this;
+
+    m_pImpl.reset(new BigIntegerImpl{*other.m_pImpl});
+    return *this;
+}
+
+// move assignment
+pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
+    if (this == &other) return *this;
+
+    m_pImpl.swap(other.m_pImpl); // other stays a valid number
+
+    return *this;
+}
+
+// assign from other types
+pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
+    m_pImpl->assign(i);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
+    m_pImpl->assign(i);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
+    m_pImpl->fromString(str, radix, ok);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
+    m_pImpl->assign(bin, len, little);
+    return *this;
+}
+
+// to POD-integer
+std::int64_t pgbn::BigInteger::getInt64(bool * ok) const {
+    if (
+        *this > std::numeric_limits<std::int64_t>::max() ||
+        *this < std::numeric_limits<std::int64_t>::min()
+    ) {
+        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
+        ok && (*ok = false);
+        return std::numeric_limits<std::int64_t>::max();
+    }
+
+    auto u64 = m_pImpl->toU64();
+    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+    ok && (*ok = true);
+    return static_cast<std::int64_t>(u64);
+}
+
+bool pgbn::BigInteger::tryGetInt64(std::int64_t & result) const {
+    bool ok = true;
+    result = getInt64(&ok);
+    return ok;
+}
+
+std::uint64_t pgbn::BigInteger::getUInt64(bool * ok) const {
+    static const BigInteger MAXU64 = detail::getU64Max();
+
+    if (
+        m_pImpl->flagsContains(BNFlag::NEGATIVE) ||
+        *this > MAXU64
+    ) {
+        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
+        ok && (*ok = false);
+        return std::numeric_limits<std::uint64_t>::max();
+    }
+
+    auto u64 = m_pImpl->toU64();
+    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+    ok && (*ok = true);
+    return static_cast<std::int64_t>(u64);
+}
+
+bool pgbn::BigInteger::tryGetUInt64(std::uint64_t & result) const {
+    bool ok = true;
+    result = getUInt64(&ok);
+    return ok;
+}
+
+std::uint32_t pgbn::BigInteger::get2sComplement(SizeType i) const {
+    return m_pImpl->getU32(i);
+}
+
+template <>
+std::string pgbn::BigInteger::as<std::string>() const {
+    return this->toString();
+}
+
+#define DEFINE_AS_INTEGER(type) \
+    template <> \
+    type pgbn::BigInteger::as<type>() const { \
+        return static_cast<type>(this->m_pImpl->toU64()); \
+    }
+
+template <>
+bool pgbn::BigInteger::as<bool>() const {
+    return !this->m_pImpl->flagsContains(BNFlag::ZERO);
+}
+
+DEFINE_AS_INTEGER( char               );
+DEFINE_AS_INTEGER( unsigned char      );
+DEFINE_AS_INTEGER( int                );
+DEFINE_AS_INTEGER( unsigned int       );
+DEFINE_AS_INTEGER( short              );
+DEFINE_AS_INTEGER( unsigned short     );
+DEFINE_AS_INTEGER( long               );
+DEFINE_AS_INTEGER( unsigned long      );
+DEFINE_AS_INTEGER( long long          );
+DEFINE_AS_INTEGER( unsigned long long );
+
+// to string
+std::string pgbn::BigInteger::toString(int radix) const {
+    return m_pImpl->toString(radix);
+}
+
+// to binary
+pgbn::SizeType pgbn::BigInteger::copyMagDataTo(void * dest, SizeType maxlen) const {
+    return m_pImpl->copyMagDataTo(dest, maxlen);
+}
+
+// is-
+bool pgbn::BigInteger::isZero() const { return m_pImpl->flagsContains(BNFlag::ZERO); }
+bool pgbn::BigInteger::isOne() const { return m_pImpl->isOne(); }
+bool pgbn::BigInteger::isNegOne() const { return m_pImpl->isNegOne(); }
+bool pgbn::BigInteger::isPositive() const { return m_pImpl->flagsContains(BNFlag::POSITIVE); }
+bool pgbn::BigInteger::isNegative() const { return m_pImpl->flagsContains(BNFlag::NEGATIVE); }
+bool pgbn::BigInteger::isEven() const { return m_pImpl->isEven(); }
+bool pgbn::BigInteger::isOdd() const { return m_pImpl->isOdd(); }
+
+// ++, --, ~, +=, -=, *=, /=, %=, &=, |=, ^=, bool, -(negative), +(positive) : member-functions
+pgbn::BigInteger & pgbn::BigInteger::operator++ () {
+    m_pImpl->inc();
+    return *this;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator++ (int) {
+    BigInteger temp = *this;
+    ++*this;
+    return temp;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator-- () {
+    m_pImpl->dec();
+    return *this;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator-- (int) {
+    BigInteger temp = *this;
+    --*this;
+    return temp;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator~ () const {
+    BigInteger temp = *this;
+    temp.m_pImpl->notSelf();
+    return temp;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator+= (const BigInteger & other) { m_pImpl->addAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator+= (std::int64_t i64)         { m_pImpl->addAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator-= (const BigInteger & other) { m_pImpl->subAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator-= (std::int64_t i64)         { m_pImpl->subAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator*= (const BigInteger & other) { m_pImpl->mulAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator*= (std::int64_t i64)         { m_pImpl->mulAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator/= (const BigInteger & other) { m_pImpl->divAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator/= (std::int64_t i64)         { m_pImpl->divAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator&= (const BigInteger & other) { m_pImpl->andAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator&= (std::int64_t i64)         { m_pImpl->andAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator|= (const BigInteger & other) { m_pImpl->orAssign(*other.m_pImpl); return *this;  }
+pgbn::BigInteger & pgbn::BigInteger::operator|= (std::int64_t i64)         { m_pImpl->orAssign(i64); return *this;    }
+
+pgbn::BigInteger & pgbn::BigInteger::operator^= (const BigInteger & other) { m_pImpl->xorAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator^= (std::int64_t i64)         { m_pImpl->xorAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator%= (const BigInteger & other) {
+    BigIntegerImpl q;
+    m_pImpl->modAssignAndQuotient(*other.m_pImpl, q);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator%= (std::int64_t i64) {
+    BigIntegerImpl q;
+    m_pImpl->modAssignAndQuotient(i64, q);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator<<= (std::uint64_t u64) { m_pImpl->shiftLeftAssign(u64); return *this;  }
+pgbn::BigInteger & pgbn::BigInteger::operator>>= (std::uint64_t u64) { m_pImpl->shiftRightAssign(u64); return *this; }
+
+pgbn::BigInteger pgbn::BigInteger::operator+ () const { return *this; }
+pgbn::BigInteger pgbn::BigInteger::operator- () const { return BigInteger(*this).negate(); }
+
+pgbn::BigInteger pgbn::BigInteger::negated() const { return -*this; }
+pgbn::BigInteger pgbn::BigInteger::absoluted() const { return BigInteger{*this}.abs(); }
+
+pgbn::BigInteger & pgbn::BigInteger::negate() { m_pImpl->negate(); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::abs()    { m_pImpl->abs();    return *this; }
+
+pgbn::BigInteger & pgbn::BigInteger::notSelf() {
+    m_pImpl->notSelf();
+    return *this;
+}
+pgbn::BigInteger & pgbn::BigInteger::notBits() {
+    m_pImpl->notBits();
+    return *this;
+}
+
+int pgbn::BigInteger::cmp(std::int64_t other) const       { return m_pImpl->cmp(BigIntegerImpl{other}); }
+int pgbn::BigInteger::cmp(const BigInteger & other) const { return m_pImpl->cmp(*(other.m_pImpl));      }
+
+// pgbn::BigInteger::operator bool() const { return !m_pImpl->flagsContains(BNFlag::ZERO); }
+
+// +, -, *, /, %, &, |, ^ : friend-functions, make from op-ass operators
+// FIXME: Can Be Better(mul and div)
+pgbn::BigInteger pgbn::operator+ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) += right; }
+pgbn::BigInteger pgbn::operator+ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) += right; }
+pgbn::BigInteger pgbn::operator+ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) += right; }
+
+pgbn::BigInteger pgbn::operator- (const BigInteger & left, const BigInteger & right) { return BigInteger(left) -= right; }
+pgbn::BigInteger pgbn::operator- (const BigInteger & left, std::int64_t right)       { return BigInteger(left) -= right; }
+pgbn::BigInteger pgbn::operator- (std::int64_t left, const BigInteger & right)       { return BigInteger(left) -= right; }
+
+pgbn::BigInteger pgbn::operator* (const BigInteger & left, const BigInteger & right) { return BigInteger(left) *= right; }
+pgbn::BigInteger pgbn::operator* (const BigInteger & left, std::int64_t right)       { return BigInteger(left) *= right; }
+pgbn::BigInteger pgbn::operator* (std::int64_t left, const BigInteger & right)       { return BigInteger(left) *= right; }
+
+pgbn::BigInteger pgbn::operator/ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) /= right; }
+pgbn::BigInteger pgbn::operator/ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) /= right; }
+pgbn::BigInteger pgbn::operator/ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) /= right; }
+
+pgbn::BigInteger pgbn::operator% (const BigInteger & left, const BigInteger & right) { return BigInteger(left) %= right; }
+pgbn::BigInteger pgbn::operator% (const BigInteger & left, std::int64_t right)       { return BigInteger(left) %= right; }
+pgbn::BigInteger pgbn::operator% (std::int64_t left, const BigInteger & right)       { return BigInteger(left) %= right; }
+
+pgbn::BigInteger pgbn::operator& (const BigInteger & left, const BigInteger & right) { return BigInteger(left) &= right; }
+pgbn::BigInteger pgbn::operator& (const BigInteger & left, std::int64_t right)       { return BigInteger(left) &= right; }
+pgbn::BigInteger pgbn::operator& (std::int64_t left, const BigInteger & right)       { return BigInteger(left) &= right; }
+
+pgbn::BigInteger pgbn::operator| (const BigInteger & left, const BigInteger & right) { return BigInteger(left) |= right; }
+pgbn::BigInteger pgbn::operator| (const BigInteger & left, std::int64_t right)       { return BigInteger(left) |= right; }
+pgbn::BigInteger pgbn::operator| (std::int64_t left, const BigInteger & right)       { return BigInteger(left) |= right; }
+
+pgbn::BigInteger pgbn::operator^ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) ^= right; }
+pgbn::BigInteger pgbn::operator^ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) ^= right; }
+pgbn::BigInteger pgbn::operator^ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) ^= right; }
+
+pgbn::BigInteger pgbn::operator<< (const BigInteger & left, std::int64_t right)      { return BigInteger(left) <<= right; }
+pgbn::BigInteger pgbn::operator>> (const BigInteger & left, std::int64_t right)      { return BigInteger(left) >>= right; }
+
+// ==, !=, <, <=, >, >= : friend-functions, from cmp-algorithm
+bool pgbn::operator== (const BigInteger & left, const BigInteger & right) { return left.cmp(right) == 0; }
+bool pgbn::operator== (const BigInteger & left, std::int64_t right)       { return left.cmp(right) == 0; }
+bool pgbn::operator== (std::int64_t left, const BigInteger & right)       { return right.cmp(left) == 0; }
+
+bool pgbn::operator!= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) != 0; }
+bool pgbn::operator!= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) != 0; }
+bool pgbn::operator!= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) != 0; }
+
+bool pgbn::operator<  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) < 0;  }
+bool pgbn::operator<  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) < 0;  }
+bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
+
+bool pgbn::operator<= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) <= 0; }
+bool pgbn::operator<= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) <= 0; }
+bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) >= 0; }
+
+bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
+bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
+bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
+
+bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
+bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
+bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) <= 0; }
-- 
2.43.0


From 82c6d0ccd4e5e06bb9c77bbe2f373848fab2c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 11/36] fix: pgfmt wrote past its fixed buffers for wide limits
 and for an empty C string

---
 src/pgdebug.h | 95 ++++++++++++++-------------------------------------
 1 file changed, 25 insertions(+), 70 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index df36470..a423e3a 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -32,6 +32,7 @@
 #ifndef __TOSTRING_UTIL_H__
 #define __TOSTRING_UTIL_H__
 
+#include <cstdio>
 #include <cstring>
 #include <string>
 #include <type_traits>
@@ -73,20 +74,25 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
         return std::string() + ele;
     }
 
+    // `conversion` is what follows "%<limit>" in a printf format, the text may have any length
+    template <typename _Value>
+    std::string printWithLimit(const std::string & limit, const char * conversion, _Value value) {
+        const std::string fmt = "%" + limit + conversion;
+        const int len = std::snprintf(nullptr, 0, fmt.c_str(), value);
+        if (len <= 0) return std::string();
+
+        std::string res(len + 1, '\0');  // snprintf writes the final '\0', too
+        std::snprintf(&res[0], res.size(), fmt.c_str(), value);
+        res.resize(len);
+        return res;
+    }
+
     inline std::string transToString(const std::int16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRId16, ele);
     }
 
     inline std::string transToString(const std::uint16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRIu16, ele);
     }
 
     inline std::string transToString(const std::uint8_t & ele, const std::string &) {
@@ -94,90 +100,39 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     }
 
     inline std::string transToString(const std::int32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRId32, ele);
     }
 
     inline std::string transToString(const std::uint32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRIu32, ele);
     }
 
     inline std::string transToString(const std::int64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRId64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRId64, ele);
     }
 
     inline std::string transToString(const std::uint64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRIu64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRIu64, ele);
     }
 
     inline std::string transToString(const float & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%sf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, "f", ele);
     }
 
     inline std::string transToString(const double & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%slf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, "lf", ele);
     }
 
     inline std::string transToString(const long double & ele, const std::string & limit) {
-        char buf[50] = { 0 };
-        char fmt[30] = { 0 };
-        sprintf(fmt, "%%%sllf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, "Lf", ele);
     }
 
     inline std::string transToString(const std::string & ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        HeapCharArrayWrapper buf(new char[(ele.size() + 1) * 2]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele.c_str());
-        return std::string(buf.ptr);
+        return printWithLimit(limit, "s", ele.c_str());
     }
 
     inline std::string transToString(const char * ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        const size_t len = std::strlen(ele);
-        HeapCharArrayWrapper buf(new char[len << 1]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele);
-        return std::string(buf.ptr);
+        return printWithLimit(limit, "s", ele);
     }
 
     template <typename _First, typename _Second>
-- 
2.43.0


From ec374424334bcc7fe0984df0784e90950fcc0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 12/36] fix: pgfmt dropped arguments beyond the number of
 brackets and formatAppend overwrote its target

---
 src/pgdebug.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index a423e3a..f8de5f9 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -289,7 +289,7 @@ namespace pg::util::stringUtil {
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
         if (contentRangeInBracket.empty()) return fmt;
 
-        std::vector<std::string> limits;
+        std::vector<std::string> limits(sizeof...(args));  // of each argument
         std::vector<int> nos;
         
         for (
@@ -298,9 +298,8 @@ namespace pg::util::stringUtil {
             
             std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
             nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second)
-                limits.push_back(std::string().assign(partiIter + 1, iter->second));
-            else limits.emplace_back();
+            if (partiIter != iter->second && nos.back() >= 0 && (std::size_t)nos.back() < limits.size())
+                limits[nos.back()].assign(partiIter + 1, iter->second);
         }
         
         std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
@@ -326,9 +325,9 @@ namespace pg::util::stringUtil {
         
         std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
-        if (contentRangeInBracket.empty()) { res = fmt; return; }
+        if (contentRangeInBracket.empty()) { res.append(fmt); return; }
 
-        std::vector<std::string> limits;
+        std::vector<std::string> limits(sizeof...(args));  // of each argument
         std::vector<int> nos;
         
         for (
@@ -337,9 +336,8 @@ namespace pg::util::stringUtil {
             
             std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
             nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second)
-                limits.push_back(std::string().assign(partiIter + 1, iter->second));
-            else limits.emplace_back();
+            if (partiIter != iter->second && nos.back() >= 0 && (std::size_t)nos.back() < limits.size())
+                limits[nos.back()].assign(partiIter + 1, iter->second);
         }
         
         std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
-- 
2.43.0


From 8ee6c42dbab0d5121903dffef3086e2a7bc78996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 13/36] fix: the first use of Status in each thread overwrote
 registered errors, and codes were unknown before it

---
 src/Status.cpp | 21 ++++++++++++++-------
 src/Status.h   |  2 ++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index b94f570..033f09c 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -6,13 +6,12 @@
 
 using namespace pgbn;
 
-static bool pgbn_reg() {
+static bool pgbn_reg(std::unordered_map<Enum, std::tuple<std::string, Callback>> & mp) {
     for (SizeType i = 0; i < errInfoCount; ++i) {
         auto & errInfo = errInfos[i];
-        Status::registe(
-            errInfo.code,
-            errInfo.info,
-            errInfo.callback, errInfo.code, errInfo.info
+        mp[errInfo.code] = std::make_tuple(
+            std::string(errInfo.info),
+            Callback(std::bind(errInfo.callback, errInfo.code, errInfo.info))
         );
     }
     return errInfoCount % 2 == 0;
@@ -23,12 +22,14 @@ std::unordered_map<Enum, std::tuple<std::string, Callback>> Status::s_mp;
 
 // member functions
 Status::Status(Enum no) noexcept : m_errno(no) {
+    registeDefaults();
     PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
 
     callback(no);
 }
 
 Status & Status::operator= (Enum no) noexcept {
+    registeDefaults();
     PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
 
     m_errno = no;
@@ -52,13 +53,18 @@ void Status::setContext(const std::any & context) {
 // static functions
 Status * Status::getInstance() {
     static thread_local Status s_ins;
-    static thread_local bool h = pgbn_reg();
-    PGZXB_UNUSED(h);
+    registeDefaults();
 
     return &s_ins;
 }
 
+void Status::registeDefaults() {
+    static const bool h = pgbn_reg(s_mp); // 只注册一次, 不覆盖用户的注册
+    PGZXB_UNUSED(h);
+}
+
 void Status::registeImpl(Enum no, const StringArg & info, Callback callback) {
+    registeDefaults();
     s_mp[no] = std::make_tuple(std::string(info.data(), info.size()), callback);
 }
 
@@ -70,6 +76,7 @@ void Status::callback(Enum no) {
 }
 
 bool Status::find(Enum no, std::tuple<std::string, Callback> ** t) {
+    registeDefaults();
     auto iter = s_mp.find(no);
     if (iter == s_mp.end()) {
         t && (*t = nullptr);
diff --git a/src/Status.h b/src/Status.h
index 9db867e..4ffdc71 100644
--- a/src/Status.h
+++ b/src/Status.h
@@ -52,6 +52,8 @@ public:
 private:
     static std::unordered_map<Enum, std::tuple<std::string, Callback>> s_mp;
 
+    static void registeDefaults(); // 注册errInfos
+
     static void registeImpl(Enum no, const StringArg & info, Callback callback);
 
     static void callback(Enum no);
-- 
2.43.0


From 141787be19c89ce85fd91c806bcb6d74d0d0a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 14/36] fix: pgbn_BigInteger_GetUInt64 compared with -1 instead
 of the largest uint64_t

---
 c/src/pgbn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index ef690e8..d0d25f2 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -169,8 +169,8 @@ uint64_t pgbn_BigInteger_GetUInt64(pgbn_BigInteger_t * b) {
 
 uint64_t pgbn_BigInteger_GetUInt64WithChecking(pgbn_BigInteger_t * b, bool * ok) {
     if (
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::max()) > 0 ||
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::min()) < 0
+        b->impl->flagsContains(pgbn::BNFlag::NEGATIVE) ||
+        b->impl->getMagU32Count() > 2
     ) {
         *pgbn::Status::getInstance() = pgbn::ErrCode::ARITHMETIC_OVERFLOW;
         ok && (*ok = false);
-- 
2.43.0


From 42432b184100c642c51908a57640655aa184890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 15/36] fix: pgbn_Status_GetGlobalInstance shared one handle
 between threads

---
 c/src/pgbn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index d0d25f2..ffc2227 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -19,7 +19,7 @@ struct pgbn_BigInteger_t {
 
 // pgbn::Status
 pgbn_Status_t * pgbn_Status_GetGlobalInstance() {
-    static pgbn_Status_t ins;
+    static thread_local pgbn_Status_t ins;
     ins.status = pgbn::Status::getInstance();
     return &ins; 
 }
-- 
2.43.0


From 5fb351983ae76aedb10590616042bb48c177a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 16/36] fix: Fraction::toDecimal lost the zeros behind the
 point and the sign of values above -1

---
 src/Fraction.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index cfad1c6..8ddf8c9 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -69,17 +69,17 @@ public:
     }
 
     std::string toDecimal(int maxDecimalDigitCount = 8) const {
-        auto q = m_num.absoluted() % m_den.absoluted();
-        std::string digitalDigitsStr;
-        if(maxDecimalDigitCount > 0) {
+        const auto num = m_num.absoluted(), den = m_den.absoluted();
+        std::string res = (num / den).toString(10);
+        if (maxDecimalDigitCount > 0) {
             auto mul = BigInteger("1" + std::string(maxDecimalDigitCount, '0'));
-            digitalDigitsStr.append(".")
-                .append((q * mul / m_den).toString());
-            if (maxDecimalDigitCount > digitalDigitsStr.size()) {
-                digitalDigitsStr.append(std::string(maxDecimalDigitCount - digitalDigitsStr.size(), '0'));
-            }
+            auto digits = (num % den * mul / den).toString(10);
+            res.append(".")
+                .append(std::string(maxDecimalDigitCount - digits.size(), '0'))
+                .append(digits);
         }
-        return (m_num / m_den).toString(10) + digitalDigitsStr;
+        const bool negative = m_num.cmp(0) * m_den.cmp(0) < 0;
+        return (negative && res.find_first_not_of("0.") != std::string::npos ? "-" : "") + res;
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-- 
2.43.0


From 665683b8a97f41ab5a4374f50395eef3a726a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 17/36] fix: Fraction::reciprocal of zero was not refused

---
 src/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 8ddf8c9..439e8c2 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -83,7 +83,7 @@ public:
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-        if (m_den == 0) {
+        if (m_num == 0) {
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return {};
-- 
2.43.0


From 4afb631c4d61c623b3ef435fd414120a61f619f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 18/36] fix: a Fraction refused for its zero denominator kept
 that denominator

---
 src/Fraction.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 439e8c2..b45bf43 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -21,14 +21,14 @@ Fraction operator/(const Fraction &left, const Fraction &right);
 class Fraction {
 public:
     Fraction() = default;
-    Fraction(const BigInteger &num, const BigInteger &den = BigInteger{1}, bool *ok = nullptr) : 
-      m_num(num),
-      m_den(den) {
+    Fraction(const BigInteger &num, const BigInteger &den = BigInteger{1}, bool *ok = nullptr) {
         if (den == 0) {
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return;
         }
+        m_num = num;
+        m_den = den;
         if (ok) *ok = true;
         PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
         fix();
-- 
2.43.0


From 6ac6f656aa39021077433a41d5ab93bc0ecf64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 19/36] fix: the error of a call with the wrong number of
 arguments was not registered

---
 src/errInfos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/errInfos.cpp b/src/errInfos.cpp
index 24c02c7..1a21343 100644
--- a/src/errInfos.cpp
+++ b/src/errInfos.cpp
@@ -45,7 +45,8 @@ const ErrInfo errInfos[] = {
     { ErrCode::PARSE_INFIXEXPR_RADIX_INVALID          , "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"           , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR      , "[PGBN-Status: Error]Parse Literal To Number Error"          , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_EQU_INVALID            , "[PGBN-Status: Error]Expected =="                            , pgbn::detail::debugPrint        },
-    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        }
+    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        },
+    { ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH, "[PGBN-Status: Error]Builtin Function Call Not Match"   , pgbn::detail::debugPrint        }
 }; 
 const SizeType errInfoCount = sizeof(errInfos) / sizeof(*errInfos);
 
-- 
2.43.0


From dd178bd938169c3c6ca936e515ff77d5796ebc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 20/36] fix: <=, > and >= in expressions were evaluated as <

---
 src/infixExpr/ExprParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index a26097f..1b13dc6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -83,11 +83,11 @@ ExprNode * ExprParser::parseCmp() {
         if (consumeToken(TokenType::LT))
             node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
         else if (consumeToken(TokenType::LE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::LE, node, parseShift());
         else if (consumeToken(TokenType::GT))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GT, node, parseShift());
         else if (consumeToken(TokenType::GE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GE, node, parseShift());
         else return node;
     }
     return nullptr;
-- 
2.43.0


From 354ae20d2265c339ed6cc42fd8f3a267d371a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 21/36] fix: only the first of several == and != in an
 expression was parsed

---
 src/infixExpr/ExprParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 1b13dc6..4f820d6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -72,7 +72,7 @@ ExprNode * ExprParser::parseEqu() {
             node = m_pNodePool->newBinOpNode(TokenType::EQU, node, parseCmp());
         else if (consumeToken(TokenType::NEQU))
             node = m_pNodePool->newBinOpNode(TokenType::NEQU, node, parseCmp());
-        return node;
+        else return node;
     }
     return nullptr;
 }
-- 
2.43.0


From 96b5b997f45e91a671c3c213148fafdcbec467d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 22/36] fix: % in expressions was parsed but not evaluated

---
 src/infixExpr/ExprTree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 5697f2f..7ac0d32 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -52,6 +52,12 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
         lOpAssRAndReturn(mul);
     case TokenType::DIV :
         lOpAssRAndReturn(div);
+    case TokenType::MOD :
+        {
+            Value quotient;
+            left.modAssignAndQuotient(right, quotient);
+            return left;
+        }
     case TokenType::SHIFTLEFT :
         left.shiftLeftAssign(right.toU64());
         return left;
-- 
2.43.0


From 09e8a4cdc5721fbb85fcfc91cdd554eef1da4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 23/36] fix: x ** 0 in expressions gave 0

---
 src/infixExpr/ExprTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 7ac0d32..2522538 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -67,7 +67,7 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
     case TokenType::POW :
         // TODO: Opt it
         if (right.isZero()) {
-            return Value(0);
+            return Value(1);
         }
         {
             auto res = Value(1);
-- 
2.43.0


From 911c6c644048ed8aa9160900a2f2f2aaf19a0f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 24/36] fix: the tokenizer never returned from blanks at the
 end of the text

---
 src/infixExpr/Token.h | 1 +
 src/infixExpr/fwd.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 680c650..2182bf4 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -59,6 +59,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
+        if (stream.eof()) break;
 
         // 解析
         char ch = stream.get();
diff --git a/src/infixExpr/fwd.h b/src/infixExpr/fwd.h
index 5661529..177b329 100644
--- a/src/infixExpr/fwd.h
+++ b/src/infixExpr/fwd.h
@@ -113,7 +113,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
@@ -127,7 +127,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
-- 
2.43.0


From add711fe5c6e2e68cb6ee41efd2e2ebef88f8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 25/36] fix: upper-case digits after the first ended a literal
 in an expression, every second digit after a point was lost

---
 src/infixExpr/Token.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 2182bf4..99a82e3 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -222,7 +222,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
 
                     if (!onlyZero) {
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
                             PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
@@ -231,11 +231,11 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
                 } else {
                     literalBeforeDot.push_back(ch);
-                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.get()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalAfterDot.push_back(ch);
                     }
 
-- 
2.43.0


From 6ff6f52499384f61a0e69ec2dd23ed3533935f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 26/36] fix: the text of an expression was read up to a zero
 byte instead of its length

---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 434c1dd..0858571 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -11,7 +11,8 @@ using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
 static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool) {
-    StringReadStream testSrc1Stream(str.data());
+    const std::string text(str); // not necessarily zero-terminated
+    StringReadStream testSrc1Stream(text);
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
     return parser.parse();
 }
-- 
2.43.0


From cfa7c850b2361e86bc7dd4498cbcbcce2e0e5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 27/36] fix: bytes beyond ASCII in an expression were passed to
 <cctype> as negative values

---
 src/infixExpr/Token.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 99a82e3..3cc09ad 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -51,6 +51,15 @@ struct Token {
 #endif
 };
 
+namespace detail {
+
+// the functions of <cctype> are undefined for negative chars
+inline bool isDigit(char ch) { return std::isdigit(static_cast<unsigned char>(ch)); }
+inline bool isAlpha(char ch) { return std::isalpha(static_cast<unsigned char>(ch)); }
+inline char toLower(char ch) { return static_cast<char>(std::tolower(static_cast<unsigned char>(ch))); }
+
+}
+
 // FIXME: Support SelfDefined-Hooks
 template<typename STREAM>
 inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
@@ -187,7 +196,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
             SET_TOKEN_DEBUG_INFO(":");
             break;
         default :
-            if (std::isdigit(ch)) { // 字面量
+            if (detail::isDigit(ch)) { // 字面量
                 int radix = 10;
                 std::string literalBeforeDot;
                 std::string literalAfterDot;
@@ -198,9 +207,9 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     if (stream.peek() == 'x') {
                         stream.get();
                         radix = 16;
-                    } else if (std::isdigit(stream.peek())) {
+                    } else if (detail::isDigit(stream.peek())) {
                         char hiDigit = stream.get(), loDigit = -1;
-                        if (std::isdigit(stream.peek())) {
+                        if (detail::isDigit(stream.peek())) {
                             loDigit = stream.get();
                         }
                         if (stream.peek() != 'x') {
@@ -222,7 +231,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
 
                     if (!onlyZero) {
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
+                        for (ch = detail::toLower(stream.peek()); detail::isDigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = detail::toLower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
                             PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
@@ -231,11 +240,11 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
                 } else {
                     literalBeforeDot.push_back(ch);
-                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
+                    for (ch = detail::toLower(stream.peek()); detail::isDigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = detail::toLower(stream.peek()))
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
+                        for (ch = detail::toLower(stream.peek()); detail::isDigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = detail::toLower(stream.peek()))
                             literalAfterDot.push_back(ch);
                     }
 
@@ -253,11 +262,11 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     return res;
                 }
                 SET_TOKEN_DEBUG_INFO(pgfmt::format("Literval(Base {0}) : {1}.{2} (Value : {3})", radix, literalBeforeDot, literalAfterDot, tokenVal));
-            } else if (std::isalpha(ch) || ch == '_') { // 内建常量或内建函数
+            } else if (detail::isAlpha(ch) || ch == '_') { // 内建常量或内建函数
                 std::string symbolName;
                 symbolName.push_back(ch);
 
-                for (ch = stream.peek(); std::isalnum(ch) || ch == '_'; stream.get(), ch = stream.peek())
+                for (ch = stream.peek(); (detail::isAlpha(ch) || detail::isDigit(ch)) || ch == '_'; stream.get(), ch = stream.peek())
                     symbolName.push_back(ch);
 
                 SymbolTable::Symbol * pSymbol = SymbolTable::getInstance()->get(symbolName);
-- 
2.43.0


From 69525c1a56e47a78b10b017e115aa2a2758fa85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 28/36] fix: malformed expressions read beyond the tokens, gave
 the value of a prefix, or failed with an unregistered code

---
 src/eval.cpp                 | 23 +++++++++--------------
 src/infixExpr/ExprParser.cpp | 33 ++++++++++++++++++---------------
 src/infixExpr/ExprParser.h   | 11 +++++++----
 src/infixExpr/Token.h        | 21 +++++++++++++--------
 4 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 0858571..e713f0a 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -10,35 +10,30 @@ using namespace pg::base;
 using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
-static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool) {
+// nullptr if the text is not an expression: the reason is in the global status, and in *status
+static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool, Status *status) {
     const std::string text(str); // not necessarily zero-terminated
     StringReadStream testSrc1Stream(text);
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
-    return parser.parse();
+    auto *root = parser.parse();
+    if (!root && status && status != Status::getInstance()) (*status) = parser.errCode();
+    return root;
 }
 
 Int pgbn::expr::eval(const StringArg &expr, Status *status) {
-    if (!status) status = Status::getInstance();
     NodePool nodePool;
-    auto *root = parseString(expr, &nodePool);
-    if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
-        return Int{};
-    }
+    auto *root = parseString(expr, &nodePool, status);
+    if (!root) return Int{};
     return BigInteger(std::make_unique<BigIntegerImpl>(root->evalCallback(root, false)));
 }
 
 Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     if (threads == 0) return eval(expr, status);
     if (threads < 0) threads = std::thread::hardware_concurrency();
-    if (!status) status = Status::getInstance();
 
     NodePool nodePool;
-    auto *root = parseString(expr, &nodePool);
-    if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
-        return Int{};
-    }
+    auto *root = parseString(expr, &nodePool, status);
+    if (!root) return Int{};
 
     // Topological sort tasks & Async run tasks
     parallel::ThreadPool threadPool(threads);
diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 4f820d6..48bd0b4 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -23,7 +23,10 @@ ExprParser::ExprParser() = default;
 
 // public functions
 ExprNode * ExprParser::parse() {
-    return parseExpr();
+    CKERR();
+    Node * root = parseExpr(); CKERR();
+    if (m_currTokenIndex + 1 < m_tokens.size()) BADTOK(TokenType::INVALID, "unexpected token");
+    return root;
 }
 
 // private functions
@@ -42,7 +45,7 @@ ExprNode * ExprParser::parseConditional() {
 }
 
 ExprNode * ExprParser::parseBitOr() {
-    Node * node = parseBitXor();
+    Node * node = parseBitXor(); CKERR();
     while (consumeToken(TokenType::OR)) {
         node = m_pNodePool->newBinOpNode(TokenType::OR, node, parseBitXor());
     }
@@ -50,7 +53,7 @@ ExprNode * ExprParser::parseBitOr() {
 }
 
 ExprNode * ExprParser::parseBitXor() {
-    Node * node = parseBitAnd();
+    Node * node = parseBitAnd(); CKERR();
     while (consumeToken(TokenType::XOR)) {
         node = m_pNodePool->newBinOpNode(TokenType::XOR, node, parseBitAnd());
     }
@@ -58,7 +61,7 @@ ExprNode * ExprParser::parseBitXor() {
 }
 
 ExprNode * ExprParser::parseBitAnd() {
-    Node * node = parseEqu();
+    Node * node = parseEqu(); CKERR();
     while (consumeToken(TokenType::AND)) {
         node = m_pNodePool->newBinOpNode(TokenType::AND, node, parseEqu());
     }
@@ -66,7 +69,7 @@ ExprNode * ExprParser::parseBitAnd() {
 }
 
 ExprNode * ExprParser::parseEqu() {
-    Node * node = parseCmp();
+    Node * node = parseCmp(); CKERR();
     while (true) {
         if (consumeToken(TokenType::EQU))
             node = m_pNodePool->newBinOpNode(TokenType::EQU, node, parseCmp());
@@ -78,7 +81,7 @@ ExprNode * ExprParser::parseEqu() {
 }
 
 ExprNode * ExprParser::parseCmp() {
-    Node * node = parseShift();
+    Node * node = parseShift(); CKERR();
     while (true) {
         if (consumeToken(TokenType::LT))
             node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
@@ -94,7 +97,7 @@ ExprNode * ExprParser::parseCmp() {
 }
 
 ExprNode * ExprParser::parseShift() {
-    Node * node = parseAddSub();
+    Node * node = parseAddSub(); CKERR();
     while (true) {
         if (consumeToken(TokenType::SHIFTLEFT))
             node = m_pNodePool->newBinOpNode(TokenType::SHIFTLEFT, node, parseAddSub());
@@ -106,7 +109,7 @@ ExprNode * ExprParser::parseShift() {
 }
 
 ExprNode * ExprParser::parseAddSub() {
-    Node * node = parseMulDivMod();
+    Node * node = parseMulDivMod(); CKERR();
     while (true) {
         if (consumeToken(TokenType::ADD))
             node = m_pNodePool->newBinOpNode(TokenType::ADD, node, parseMulDivMod());
@@ -118,7 +121,7 @@ ExprNode * ExprParser::parseAddSub() {
 }
 
 ExprNode * ExprParser::parseMulDivMod() {
-    Node * node = parsePow();
+    Node * node = parsePow(); CKERR();
     while (true) {
         if (consumeToken(TokenType::MUL))
             node = m_pNodePool->newBinOpNode(TokenType::MUL, node, parsePow());
@@ -132,7 +135,7 @@ ExprNode * ExprParser::parseMulDivMod() {
 }
 
 ExprNode* ExprParser::parsePow() {
-    Node* node = parseUnaryOp();
+    Node* node = parseUnaryOp(); CKERR();
     while (true) {
         if (consumeToken(TokenType::POW))
             node = m_pNodePool->newBinOpNode(TokenType::POW, node, parseUnaryOp());
@@ -152,7 +155,7 @@ ExprNode * ExprParser::parseUnaryOp() {
 }
 
 ExprNode * ExprParser::parsePostfixOp() {
-    Node * node = parsePrim();
+    Node * node = parsePrim(); CKERR();
     while (true) {
         if (consumeToken(TokenType::FACT))
             node = m_pNodePool->newUnaryOpNode(TokenType::FACT, node);
@@ -163,7 +166,7 @@ ExprNode * ExprParser::parsePostfixOp() {
 
 ExprNode * ExprParser::parsePrim() {
     if (consumeToken(TokenType::LEFTBRACKET)) {
-        Node * node = parseExpr();
+        Node * node = parseExpr(); CKERR();
         if (!consumeToken(TokenType::RIGHTBRACKET))
             BADTOK(TokenType::RIGHTBRACKET, "expected ')'");
         return node;
@@ -176,20 +179,20 @@ ExprNode * ExprParser::parsePrim() {
         if (!consumeToken(TokenType::LEFTBRACKET)) BADTOK(TokenType::LEFTBRACKET, "Expected '()' To Call Function");
         return parseFuncCall(temp.pSymbol);
     }
-    return nullptr;
+    BADTOK(TokenType::LITERAL, "expected an operand");
 }
 
 ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
     std::vector<Node*> argNodes;
     while (!consumeToken(TokenType::RIGHTBRACKET)) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
-        argNodes.push_back(parseExpr());
+        argNodes.push_back(parseExpr()); CKERR();
     }
     return m_pNodePool->newFunctionCallNode(symbol, std::move(argNodes));
 }
 
 bool ExprParser::consumeToken(TokenType type) {
-    if (type != m_tokens[m_currTokenIndex].type) return false;
+    if (m_currTokenIndex >= m_tokens.size() || type != m_tokens[m_currTokenIndex].type) return false;
     
     ++m_currTokenIndex;
     return true;
diff --git a/src/infixExpr/ExprParser.h b/src/infixExpr/ExprParser.h
index 85f554e..f2ad531 100644
--- a/src/infixExpr/ExprParser.h
+++ b/src/infixExpr/ExprParser.h
@@ -26,7 +26,9 @@ public:
     ExprParser & operator=(const ExprParser &) = delete;
     ExprParser & operator=(ExprParser &&) = delete;
 
-    Node * parse();
+    Node * parse(); // nullptr if the text is not an expression, errCode() tells why
+
+    Enum errCode() const { return m_errCode; }
 
 private:
     Node * parseExpr();
@@ -60,13 +62,14 @@ private:
 template <typename S>
 inline ExprParser::ExprParser(
     S & stream, const Hooks & hooks, NodePool * pNodePool
-) : m_tokens(tokenizer(stream, hooks)), m_pNodePool(pNodePool) {
-
+) {
+    init(stream, hooks, pNodePool);
 }
 
 template <typename S>
 void ExprParser::init(S & stream, const Hooks & hooks, NodePool * pNodePool) {
-    m_tokens = tokenizer(stream, hooks);
+    m_errCode = ErrCode::SUCCESS;
+    m_tokens = tokenizer(stream, hooks, &m_errCode);
     m_currTokenIndex = 0;
     m_pNodePool = pNodePool;
 }
diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 3cc09ad..4260c39 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -62,8 +62,13 @@ inline char toLower(char ch) { return static_cast<char>(std::tolower(static_cast
 
 // FIXME: Support SelfDefined-Hooks
 template<typename STREAM>
-inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
+inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks, Enum * errCode = nullptr) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
     std::vector<Token> res;
+    const auto fail = [&res, errCode](Enum code) { // the unfinished token becomes the end of the tokens
+        res.back().type = TokenType::INVALID;
+        if (errCode) *errCode = code;
+        PGBN_GetGlobalStatus() = code;
+    };
 
     while (!stream.eof()) {
         // 跳过空白符
@@ -171,7 +176,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 tokenType = TokenType::EQU;
                 SET_TOKEN_DEBUG_INFO("==");
             } else {
-                PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_EQU_INVALID;
+                fail(ErrCode::PARSE_INFIXEXPR_EQU_INVALID);
                 return res;
             }
             break;
@@ -234,7 +239,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                         for (ch = detail::toLower(stream.peek()); detail::isDigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = detail::toLower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
-                            PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
+                            fail(ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL);
                             return res;
                         }
                     }
@@ -251,14 +256,14 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 }
 
                 if (!(radix >= 2 && radix <= 36)) {
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_RADIX_INVALID;
+                    fail(ErrCode::PARSE_INFIXEXPR_RADIX_INVALID);
                     return res;
                 }
 
                 tokenType = TokenType::LITERAL;
                 tokenVal = Value{};
                 if (!hooks.literal2Value || !hooks.literal2Value(tokenVal, radix, literalBeforeDot, literalAfterDot)) {
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR;
+                    fail(ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR);
                     return res;
                 }
                 SET_TOKEN_DEBUG_INFO(pgfmt::format("Literval(Base {0}) : {1}.{2} (Value : {3})", radix, literalBeforeDot, literalAfterDot, tokenVal));
@@ -271,13 +276,13 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
 
                 SymbolTable::Symbol * pSymbol = SymbolTable::getInstance()->get(symbolName);
                 if (pSymbol == nullptr) { // UndefinedSymbol
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED;
+                    fail(ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED);
                     return res;
                 } else {
                     if (pSymbol->is<Func>()) tokenType = TokenType::BUILTINFUNC;
                     else if (pSymbol->is<Value>()) tokenType = TokenType::BUILTINCONSTANT;
                     else { // InvalidBuiltinSymbol
-                        PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID;
+                        fail(ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID);
                         return res;
                     }
                     tokenPSymbol = pSymbol;
@@ -288,7 +293,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     *tokenPSymbol
                 ));
             } else {
-                PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_CHAR_INVALID;
+                fail(ErrCode::PARSE_INFIXEXPR_CHAR_INVALID);
                 return res;
             }
             break;
-- 
2.43.0


From e7eab12530ff077931b2c0e1e11aa90cee7d8865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 29/36] fix: a function in an expression was called with the
 wrong number of arguments

---
 src/infixExpr/ExprParser.cpp | 6 ++++++
 src/infixExpr/ExprTree.cpp   | 1 -
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 48bd0b4..d046779 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -188,6 +188,12 @@ ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
         argNodes.push_back(parseExpr()); CKERR();
     }
+    const int argCount = symbol->as<Func>().argCount;
+    if (argCount != -1 && static_cast<SizeType>(argCount) != argNodes.size()) {
+        m_errCode = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        PGBN_GetGlobalStatus() = m_errCode;
+        return nullptr;
+    }
     return m_pNodePool->newFunctionCallNode(symbol, std::move(argNodes));
 }
 
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 2522538..eaf9207 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -126,7 +126,6 @@ static Value valEvalCallback(ExprNode * node, bool) {
 static Value builtinFuncEvalCallback(ExprNode * node, bool peval) {
     PGZXB_DEBUG_ASSERT(node->nodeType == ExprNode::NodeType::BUILTINFUNC);
     Func func = node->symbol->as<Func>();
-    if (func.argCount != -1 && static_cast<SizeType>(func.argCount) != node->children.size()) PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
     PGZXB_DEBUG_ASSERT(!!func.nativeCall);
     std::vector<Value> args;
     for (auto * ch : node->children) { 
-- 
2.43.0


From 6802bda4226d3ea03f26b9bad43a43cfad62dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 30/36] fix: the pool could miss its shutdown, the flag was set
 without the lock

---
 src/parallel/SimpleConcurrenceQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parallel/SimpleConcurrenceQueue.h b/src/parallel/SimpleConcurrenceQueue.h
index f5d8c49..395a453 100644
--- a/src/parallel/SimpleConcurrenceQueue.h
+++ b/src/parallel/SimpleConcurrenceQueue.h
@@ -72,6 +72,7 @@ public:
     }
 
     void notifyAllPop() {
+        std::lock_guard<std::mutex> _(m_mutex);
         m_alwaysPop = true;
         m_cond.notify_all();
     }
-- 
2.43.0


From bef346ee4d0f5a44ebd60b676f3fe9f7a5807032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 31/36] fix: parallel evaluation evaluated both branches of a
 conditional

---
 src/eval.cpp               | 17 +++++++++++++++--
 src/infixExpr/ExprTree.cpp |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index e713f0a..213224e 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -42,20 +42,33 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     std::vector<std::uint32_t> parents(N);
     std::vector<std::uint32_t> childCnt(N);
 
+    // Only one branch of a conditional may be evaluated: the branches are left to its task
+    std::uint32_t nTasks = N;
+    std::vector<bool> inBranch(N);
+    for (std::uint32_t i = N; i-- > 0;) { // children come before their parents
+        auto * node = nodePool.get(i);
+        if (inBranch[i]) --nTasks;
+        for (std::size_t j = 0; j < node->children.size(); ++j) {
+            if (inBranch[i] || (node->nodeType == TokenType::QMARK && j > 0)) inBranch[node->children[j]->indexInPool] = true;
+        }
+    }
+
     for (std::uint32_t i = 0; i < N; ++i) {
+        if (inBranch[i]) continue;
         auto * node = nodePool.get(i);
         const auto & children = node->children;
         if (children.size() == 0) q.push(i);
-        childCnt[i] = children.size();
         for (const auto * child : children) {
             PGZXB_DEBUG_ASSERT(child->indexInPool < N);
+            if (inBranch[child->indexInPool]) continue;
+            ++childCnt[i];
             parents[child->indexInPool] = i;
         }
     }
 
     std::uint32_t cnt = 0;
     std::vector<std::future<void>> currLevelFu;
-    while (cnt != N) {
+    while (cnt != nTasks) {
         const std::uint32_t cntInQueue = q.size();
         for (std::uint32_t i = 0; i < cntInQueue; ++i, ++cnt) {
             auto childIndex = q.front();
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index eaf9207..76a81a0 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -11,10 +11,11 @@ inline static Value eval(ExprNode * node, bool peval) {
         node->evalCallback(node, false);
 }
 
+// The chosen branch is evaluated here, peval() makes no tasks of the branches
 static Value ifElseNodeEvalCallback(ExprNode * node, bool peval) {
     PGZXB_DEBUG_ASSERT(node->children.size() == 3);
     auto & ch = node->children;
-    return !eval(ch[0], peval).isZero() ? eval(ch[1], peval) : eval(ch[2], peval);
+    return !eval(ch[0], peval).isZero() ? eval(ch[1], false) : eval(ch[2], false);
 }
 
 static Value binOpEvalCallback(ExprNode * node, bool peval) {
-- 
2.43.0


From b2395dfb76400bb5ed0fad9ba37bb018601c117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 32/36] fix: peval hung when a function threw an exception

---
 src/infixExpr/ExprTree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 76a81a0..93e99e2 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -139,8 +139,12 @@ static void pevalTask(ExprNode * node) {
     // std::ostringstream oss;
     // oss << std::this_thread::get_id();
     // std::cerr << pgfmt::format("Thread#{0} node#{1} start\n", oss.str(), (std::uint64_t)node );
-    auto temp = node->evalCallback(node, true);
-    node->valPromise.set_value(temp);
+    try {
+        auto temp = node->evalCallback(node, true);
+        node->valPromise.set_value(temp);
+    } catch (...) { // handed on from node to node, the caller of peval() gets it
+        node->valPromise.set_exception(std::current_exception());
+    }
     // std::cerr << pgfmt::format("Thread#{0} node#{1}: peval = {2}\n", oss.str(),
     //     (std::uint64_t)node, temp.cmp(INT64_MAX) == 1 ? temp.toString(10).substr(0, 50).append("...") : temp.toString(10));
 }
-- 
2.43.0


From dacae8407fb4a83245fe43775129ed4c0451f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 33/36] fix: the default number of threads was 0 where the
 hardware concurrency is unknown

---
 src/eval.cpp              | 2 +-
 src/parallel/ThreadPool.h | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 213224e..67b1a4e 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -29,7 +29,7 @@ Int pgbn::expr::eval(const StringArg &expr, Status *status) {
 
 Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     if (threads == 0) return eval(expr, status);
-    if (threads < 0) threads = std::thread::hardware_concurrency();
+    if (threads < 0) threads = std::max(1u, std::thread::hardware_concurrency());
 
     NodePool nodePool;
     auto *root = parseString(expr, &nodePool, status);
diff --git a/src/parallel/ThreadPool.h b/src/parallel/ThreadPool.h
index db12b5e..7c336e0 100644
--- a/src/parallel/ThreadPool.h
+++ b/src/parallel/ThreadPool.h
@@ -4,13 +4,15 @@
 #include "fwd.h"
 #include "SimpleConcurrenceQueue.h"
 
+#include <algorithm>
 #include <atomic>
 #include <memory>
 #include <thread>
 #include <future>
 
 PGBN_PARALLEL_NAMESPACE_START
-inline static auto kDefaultNThreads = std::thread::hardware_concurrency();
+// hardware_concurrency() is 0 where it cannot be computed
+inline static auto kDefaultNThreads = std::max(1u, std::thread::hardware_concurrency());
 
 class ThreadPool {
     using TaskQueue = SimpleConcurrenceQueue<RawTask>;
-- 
2.43.0


From 70972104e73ac746d0fc224f94fe81ba3f94837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 34/36] hook: the size from which multiplication divides and
 conquers can be lowered

---
 src/BigIntegerImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index fc0270d..92a92c3 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1033,7 +1033,11 @@ void BigIntegerImpl::mulAssign(const BigIntegerImpl & other) {
     if (isOne()) { assign(other); return; } // 1 * a == a
     if (isNegOne()) { assign(other).negate(); return; } // -1 * a == -a
 
+#ifdef PGBN_VERIF_KARATSUBA_THRESHOLD
+    constexpr const SizeType KARATSUBA_THRESHOLD = PGBN_VERIF_KARATSUBA_THRESHOLD;
+#else
     constexpr const SizeType KARATSUBA_THRESHOLD = 80;
+#endif
     const SizeType alen = m_mag.count();
     const SizeType blen = other.m_mag.count();
 
@@ -1332,7 +1336,11 @@ void BigIntegerImpl::mul(BigIntegerImpl & res, const BigIntegerImpl & a, const B
     if (b.isOne()) { res.assign(a); return; } // a
     if (b.isNegOne()) { res.assign(a).negate(); return; } // -a
 
+#ifdef PGBN_VERIF_KARATSUBA_THRESHOLD
+    constexpr const SizeType KARATSUBA_THRESHOLD = PGBN_VERIF_KARATSUBA_THRESHOLD;
+#else
     constexpr const SizeType KARATSUBA_THRESHOLD = 80;
+#endif
 
     res.beginWrite();
 
-- 
2.43.0


From 31e84add308340851bd2d3a9a3d901840c2de4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 35/36] fix: a product into one of its own factors had the
 wrong sign from the size of divide and conquer on

---
 src/BigIntegerImpl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 92a92c3..4232910 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1344,14 +1344,14 @@ void BigIntegerImpl::mul(BigIntegerImpl & res, const BigIntegerImpl & a, const B
 
     res.beginWrite();
 
-    if (a.hasSameSigFlag(b)) res.setFlagsToPositive();
-    else res.setFlagsToNegative();
-
     const SizeType alen = a.m_mag.count();
     const SizeType blen = b.m_mag.count();
 
     // 规模较小直接采用小学生算法
     if (alen < KARATSUBA_THRESHOLD || blen < KARATSUBA_THRESHOLD) {
+        if (a.hasSameSigFlag(b)) res.setFlagsToPositive();
+        else res.setFlagsToNegative();
+
         if (b.m_mag.count() == 1) {
             const std::uint32_t temp = b.m_mag[0]; // res可能就是b
             res.m_mag = a.m_mag;
@@ -1448,6 +1448,7 @@ void BigIntegerImpl::mulKaratsuba(BigIntegerImpl & res, const BigIntegerImpl & a
 
     const SizeType half = (std::max(alen, blen) + 1) / 2;
 
+    const bool positive = a.hasSameSigFlag(b); // res may be a or b
     std::vector<BigIntegerImpl> aBlocks = a.split(2, half); // {al, ah}
     std::vector<BigIntegerImpl> bBlocks = b.split(2, half); // {bl, bh}
     PGZXB_DEBUG_ASSERT(aBlocks.size() == 2);
@@ -1474,7 +1475,7 @@ void BigIntegerImpl::mulKaratsuba(BigIntegerImpl & res, const BigIntegerImpl & a
     res.shiftLeftAssign(32 * half);
     res.addAssign(p2);
 
-    if (a.hasSameSigFlag(b)) res.setFlagsToPositive();
+    if (positive) res.setFlagsToPositive();
     else res.setFlagsToNegative();
 }
 
-- 
2.43.0


From 93d819e5156762365b04c48b29345eef1839f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:49 +0000
Subject: [PATCH 36/36] fix: quotient into its own one-limb divisor used the
 overwritten divisor

---
 src/BigIntegerImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 4232910..896b9bb 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1391,8 +1391,9 @@ void BigIntegerImpl::div(BigIntegerImpl & q, BigIntegerImpl & r, const BigIntege
 
     if (b.m_mag.count() == 1) { // 转发到 a/<int64_t>
 
+        const std::uint32_t temp = b.m_mag[0]; // q可能就是b
         q.assign(a);
-        q.divideAssignAndReminderByU32(b.m_mag[0], r);
+        q.divideAssignAndReminderByU32(temp, r);
         if (!q.flagsContains(BNFlag::ZERO)) {
             if (aSigNum == bSigNum) q.setFlagsToPositive();
             else q.setFlagsToNegative();
-- 
2.43.0


// Common parts of the harnesses: building numbers in arbitrary valid representation states and reading them back
// through the public interface, against exact integer arithmetic (_BitInt).
#pragma once
#include "sym.h"
#include "BigInteger.h"
#include "BigIntegerImpl.h"
#include "Status.h"
#include "Slice.h"
#include "errInfos.h"
#include <memory>
#include <string>
#include <vector>
using pgbn::BigInteger;
using pgbn::BigIntegerImpl;
using Sl = pgbn::Slice<std::uint32_t>;
#ifndef VH_LIMBS
#define VH_LIMBS 5
#endif
constexpr int KW = VH_LIMBS; // limbs of the exact integers used as the specification
using I = _BitInt(32 * KW);
using U = unsigned _BitInt(32 * KW);

// An integer given by its limbs (the specification side) together with the BigInteger built from it.
struct Num {
    uint32_t l[KW] = {};
    int n = 0;      // canonical number of limbs
    bool neg = false;
    I v = 0;
    U mag = 0;
    BigInteger b;
    BigInteger keep; // possibly a live copy sharing the limbs
    bool shared = false;
};

// a case split, or one case of it when the parameter fixes it
inline uint32_t pick(const char * name, uint32_t n) {
    uint64_t p = sym_param(name, ~0ull);
    return p < n ? (uint32_t)p : sym_choice(name, n);
}

// every 64-bit integer, split by sign and by the number of limbs of its magnitude
struct Mi { int64_t i = 0; I v = 0; uint32_t l[2] = {0, 0}; int n = 0; bool neg = false; };
inline Mi mkI64(const char * name) {
    Mi r;
    uint32_t c = pick("ikind", 5);
    if (c == 0) return r;
    r.n = c > 2 ? 2 : 1;
    r.neg = c % 2 == 0;
    r.l[0] = sym_u32(name);
    r.l[1] = c > 2 ? sym_u32(name) : 0;
    uint64_t m = (uint64_t)r.l[1] << 32 | r.l[0];
    if (c > 2) { sym_assume(r.l[1] != 0); sym_assume(m <= (uint64_t)INT64_MAX + r.neg); }
    else sym_assume(r.l[0] != 0);
    r.v = r.neg ? -(I)m : (I)m;
    r.i = (int64_t)(r.neg ? 0 - m : m);
    return r;
}

inline U composeMag(const uint32_t * l, int n) {
    U r = 0;
    for (int i = n - 1; i >= 0; --i) r = (r << 32) | l[i];
    return r;
}

// Representation state of a BigInteger with the given limbs: where the limbs sit in the backing vector, what the
// vector holds in front of and behind them, whether the vector is shared, whether the lazily computed index is cached.
enum Mode { FRESH, TAIL, SHARED, CACHED, SHARED_TAIL_CACHED, LEAD, NMODES };

inline BigInteger build(const uint32_t * l, int n, bool neg, int lead, int tail) {
    auto vec = std::make_shared<std::vector<uint32_t>>(lead + n + tail);
    for (int i = 0; i < lead; ++i) (*vec)[i] = sym_u32("front");
    for (int i = 0; i < n; ++i) (*vec)[lead + i] = l[i];
    for (int i = 0; i < tail; ++i) (*vec)[lead + n + i] = sym_u32("tail");
    return BigInteger(std::make_unique<BigIntegerImpl>(Sl(vec, lead, lead + n), neg ? -1 : 1));
}

// some number of this path carried a cached index: results are then also read as negative numbers, which use it
inline bool vhCached = false;
// exactly n limbs, top limb nonzero
inline void mkLen(Num & x, const char * name, int n, int mode) {
    x.n = n;
    for (int i = 0; i < n; ++i) x.l[i] = sym_u32(name);
    if (n) { sym_assume(x.l[n - 1] != 0); x.neg = sym_choice("neg", 2); }
    x.mag = composeMag(x.l, n);
    x.v = x.neg ? -(I)x.mag : (I)x.mag;
    if (n == 0) x.b = BigInteger();
    else x.b = build(x.l, n, x.neg, mode == LEAD ? 2 : mode == CACHED ? 0 : 1, mode == TAIL || mode == SHARED_TAIL_CACHED ? 2 : 0);
    if ((mode == CACHED || mode == SHARED_TAIL_CACHED) && n) { // the index is computed for negative numbers and survives a change of sign
        vhCached = true;
        if (!x.neg) x.b.negate();
        (void)x.b.get2sComplement(0);
        if (!x.neg) x.b.negate();
    }
    if (mode == SHARED || mode == SHARED_TAIL_CACHED) { x.keep = x.b; x.shared = true; }
}
// 0..maxn limbs
inline void mk(Num & x, const char * name, int minn, int maxn, int mode) {
    mkLen(x, name, minn + (int)sym_choice("len", maxn - minn + 1), mode);
}

inline uint32_t limb(I v, int i) { return (uint32_t)((U)v >> (32 * i)); }
inline U magOf(I v) { return v < 0 ? (U)-v : (U)v; }

// a number of magnitude m[0..k) reads in two's complement as it must, and so does its negation
inline void expectTwos(const BigInteger & b, const uint32_t * m, int k) {
    if (!vhCached) return;
    BigInteger c(b);
    if (!b.isNegative()) c.negate();
    uint32_t d = 0, carry = 1;
    for (int i = 0; i < k; ++i) {
        uint32_t g = c.get2sComplement(i), w = ~m[i] + carry;
        if (sym_concretize(m[i] != 0)) carry = 0;
        sym_observe("twos", g);
        d |= g ^ w;
    }
    sym_assert(d == 0, "twos-complement");
}
// value of b == v, read through the magnitude limbs; k limbs are compared
inline void expectMag(const BigInteger & b, I v, int k, const char * id) {
    bool neg = v < 0;
    uint32_t d = (uint32_t)(b.isNegative() != neg) | (uint32_t)(b.isZero() != (v == 0));
    BigInteger m = b.absoluted();
    U mag = magOf(v);
    uint32_t l[4 * KW];
    for (int i = 0; i < k; ++i) {
        uint32_t g = l[i] = m.get2sComplement(i);
        sym_observe("mag", g);
        d |= g ^ (uint32_t)(mag >> (32 * i));
    }
    sym_assert(d == 0, id);
    expectTwos(b, l, k);
}
// value of b == (-1)^neg * mag; the sign of zero does not matter
inline void expectSM(const BigInteger & b, bool neg, U mag, int k, const char * id) {
    BigInteger m = b.absoluted();
    uint32_t d = 0, any = 0, l[4 * KW];
    for (int i = 0; i < k; ++i) {
        uint32_t g = l[i] = m.get2sComplement(i), w = (uint32_t)(mag >> (32 * i));
        sym_observe("mag", g);
        d |= g ^ w; any |= w;
    }
    sym_assert(d == 0, id);
    bool z = any == 0;
    sym_assert(b.isZero() == z, id);
    sym_assert(b.isNegative() == (!z && neg), id);
    sym_assert(b.isPositive() == (!z && !neg), id);
    expectTwos(b, l, k);
}
// product of two magnitudes, limb by limb
inline U mulMag(const uint32_t * a, int n, const uint32_t * b, int m) {
    U r = 0;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < m; ++j) r += (U)((uint64_t)a[i] * b[j]) << (32 * (i + j));
    return r;
}
// value of b == v, read as two's complement limbs
inline void expect2s(const BigInteger & b, I v, int k, const char * id) {
    uint32_t d = 0;
    for (int i = 0; i < k; ++i) {
        uint32_t g = b.get2sComplement(i);
        sym_observe("limb", g);
        d |= g ^ limb(v, i);
    }
    sym_assert(d == 0, id);
}
inline BigInteger fromI(I v, int k) {
    U mag = magOf(v);
    auto vec = std::make_shared<std::vector<uint32_t>>(k);
    for (int i = 0; i < k; ++i) (*vec)[i] = (uint32_t)(mag >> (32 * i));
    return BigInteger(std::make_unique<BigIntegerImpl>(Sl(vec, 0, k), v < 0 ? -1 : 1));
}
// the representation is the canonical one: equal to a freshly built number and exporting the minimal number of bytes
inline void expectCanon(const BigInteger & b, I v, int k, const char * id) {
    BigInteger e = fromI(v, k);
    sym_assert(b.cmp(e) == 0, id);
    sym_assert(e.cmp(b) == 0, id);
    sym_assert(b.isPositive() == (v >= 0) || v == 0, id);
    U mag = magOf(v);
    uint64_t bytes = 0;
    unsigned char buf[4 * KW];
    bytes = b.copyMagDataTo(buf, sizeof buf);
    sym_observe("bytes", bytes);
    sym_assert(bytes <= 4 * (uint64_t)k, id);
    sym_assert(bytes == 0 ? mag == 0 : (mag >> (8 * (bytes - 1))) != 0 && (mag >> (8 * (bytes - 1))) <= 0xff, id);
}
inline void expectKept(const Num & x, const char * id) {
    if (x.shared) { expectMag(x.keep, x.v, x.n + 1, id); expect2s(x.keep, x.v, x.n + 1, id); }
}

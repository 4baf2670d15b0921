// Conversions from and to machine integers and binary buffers; predicates.
#define VH_LIMBS 5
#include "vh.h"
using namespace pgbn;
static bool statusIs(Enum code) { return Status::getInstance()->getInfo() == Status::getInfo(code); }

// two's complement bytes, both byte orders, into a number in any earlier state
extern "C" void unit_frombin() {
    int L = sym_param("len", 5);
    bool little = pick("little", 2);
    unsigned char buf[24];
    I want = 0;
    for (int i = 0; i < L; ++i) buf[i] = sym_u8("byte");
    for (int i = 0; i < L; ++i) want |= (I)buf[little ? i : L - 1 - i] << (8 * i);
    if (L) { bool neg = buf[little ? L - 1 : 0] & 0x80; if (neg) want -= (I)1 << (8 * L); }
    Num old; BigInteger b;
    uint32_t how = pick("how", 4);
    int k = (L + 3) / 4 + 1;
    if (how == 0) b = BigInteger(L, buf, little);
    else {
        mkLen(old, "old", 2, how == 1 ? SHARED_TAIL_CACHED : how == 2 ? TAIL : CACHED);
        BigInteger & r = old.b.fromBinary(buf, L, little);
        sym_assert(&r == &old.b, "returns-self");
        b = old.b;
        expectKept(old, "copy-unchanged");
    }
    expectMag(b, want, k, "value");
    expect2s(b, want, k, "twos-complement");
    b += 1;
    expectMag(b, want + 1, k, "then-increment");
}
// little-endian magnitude bytes; never more than asked for, never a leading zero byte
extern "C" void unit_copymag() {
    int N = sym_param("n", 2);
    Num a;
    mkLen(a, "a", N, pick("mode", NMODES));
    uint32_t max = pick("max", 4 * N + 3);
    unsigned char buf[4 * KW + 8];
    for (unsigned i = 0; i < sizeof buf; ++i) buf[i] = 0xa5;
    SizeType got = a.b.copyMagDataTo(buf, max);
    uint64_t bytes = 0;
    for (int i = 0; i < 4 * N; ++i) if ((a.l[i / 4] >> (8 * (i % 4))) & 0xff) bytes = i + 1;
    uint64_t want = bytes < max ? bytes : max;
    sym_observe("bytes", got);
    sym_assert(got == want, "byte-count");
    uint32_t d = 0;
    for (uint32_t i = 0; i < 4u * N + 8; ++i) {
        uint32_t w = i < want ? (a.l[i / 4 < KW ? i / 4 : 0] >> (8 * (i % 4))) & 0xff : 0xa5;
        d |= buf[i] ^ w;
    }
    sym_assert(d == 0, "bytes");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
    expectKept(a, "copy-unchanged");
}
// every block of the two's complement representation, also far beyond the top
extern "C" void unit_blocks() {
    int N = sym_param("n", 3);
    Num a;
    mkLen(a, "a", N, pick("mode", NMODES));
    expect2s(a.b, a.v, N + 2, "blocks");
    uint64_t far = sym_u64("far");
    sym_assume(far >= (uint64_t)N);
    uint32_t g = a.b.get2sComplement(far);
    sym_assert(g == (a.neg ? 0xffffffffu : 0), "sign-extension");
    expect2s(a.b, a.v, N + 2, "blocks-again");
}
extern "C" void unit_int64() {
    int N = sym_param("n", 3);
    Num a;
    mk(a, "a", 0, N, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    bool fits = a.v >= (I)INT64_MIN && a.v <= (I)INT64_MAX;
    bool ok = !fits;
    int64_t g = a.b.getInt64(&ok);
    sym_assert(ok == fits, "ok-flag");
    sym_assert(statusIs(fits ? ErrCode::SUCCESS : ErrCode::ARITHMETIC_OVERFLOW), "status");
    if (fits) { sym_observe("v", g); sym_assert((uint64_t)g == (uint64_t)(U)a.v, "value"); }
    int64_t t = 0;
    bool tr = a.b.tryGetInt64(t);
    sym_assert(tr == fits, "try-flag");
    if (fits) sym_assert(t == g, "try-value");
    if (fits) sym_assert(a.b.getInt64() == g, "value-without-flag");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
}
extern "C" void unit_uint64() {
    int N = sym_param("n", 3);
    Num a;
    mk(a, "a", 0, N, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    bool fits = a.v >= 0 && a.v <= (I)UINT64_MAX;
    bool ok = !fits;
    uint64_t g = a.b.getUInt64(&ok);
    sym_assert(ok == fits, "ok-flag");
    sym_assert(statusIs(fits ? ErrCode::SUCCESS : ErrCode::ARITHMETIC_OVERFLOW), "status");
    if (fits) { sym_observe("v", g); sym_assert(g == (uint64_t)(U)a.v, "value"); }
    uint64_t t = 0;
    bool tr = a.b.tryGetUInt64(t);
    sym_assert(tr == fits, "try-flag");
    if (fits) sym_assert(t == g, "try-value");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
}
// as<T>() keeps the low bits of the two's complement representation
extern "C" void unit_as() {
    int N = sym_param("n", 3);
    Num a;
    mk(a, "a", 0, N, pick("mode", NMODES));
    uint64_t low = (uint64_t)(U)a.v;
    const BigInteger & x = a.b;
    sym_assert(x.as<char>() == (char)low, "char");
    sym_assert(x.as<unsigned char>() == (unsigned char)low, "unsigned-char");
    sym_assert(x.as<short>() == (short)low, "short");
    sym_assert(x.as<unsigned short>() == (unsigned short)low, "unsigned-short");
    sym_assert(x.as<int>() == (int)low, "int");
    sym_assert(x.as<unsigned int>() == (unsigned int)low, "unsigned-int");
    sym_assert(x.as<long>() == (long)low, "long");
    sym_assert(x.as<unsigned long>() == low, "unsigned-long");
    sym_assert(x.as<long long>() == (long long)low, "long-long");
    sym_assert(x.as<unsigned long long>() == low, "unsigned-long-long");
    sym_assert(x.as<bool>() == (a.v != 0), "bool");
}
// a number made from an int64, and assigned from one in any earlier state
extern "C" void unit_fromint() {
    Mi m = mkI64("i");
    Num old; BigInteger b;
    switch (pick("how", 5)) {
    case 0: b = BigInteger(m.i); break;
    case 1: mkLen(old, "old", 3, SHARED_TAIL_CACHED); old.b = m.i; b = old.b; break;
    case 2: mkLen(old, "old", 3, CACHED); old.b.assign(m.i); b = old.b; break;
    case 3: mkLen(old, "old", 1, TAIL); old.b.assign(m.i); b = old.b; break;
    default: old.b = BigInteger(); old.b.assign(m.i); b = old.b; break;
    }
    expectKept(old, "copy-unchanged");
    expectMag(b, m.v, 4, "value");
    expect2s(b, m.v, 4, "twos-complement");
    bool ok = false;
    sym_assert(b.getInt64(&ok) == m.i && ok, "round-trip");
    b -= 1;
    expectMag(b, m.v - 1, 4, "then-decrement");
}
extern "C" void unit_preds() {
    int N = sym_param("n", 3);
    Num a;
    mk(a, "a", 0, N, pick("mode", NMODES));
    const BigInteger & x = a.b;
    for (int k = 0; k < 2; ++k) {
        sym_assert(x.isZero() == (a.v == 0), "isZero");
        sym_assert(x.isOne() == (a.v == 1), "isOne");
        sym_assert(x.isNegOne() == (a.v == -1), "isNegOne");
        sym_assert(x.isPositive() == (a.v > 0), "isPositive");
        sym_assert(x.isNegative() == (a.v < 0), "isNegative");
        sym_assert(x.isEven() == ((a.l[0] & 1) == 0), "isEven");
        sym_assert(x.isOdd() == ((a.l[0] & 1) == 1), "isOdd");
        (void)x.get2sComplement(0);
    }
}

// Shifts: << multiplies by 2^s, >> is the floor of the division by 2^s.
#define VH_LIMBS 10
#include "vh.h"

// one path per shift amount lo..hi, every limb value, every representation state
extern "C" void unit_shl() {
    int N = sym_param("n", 2);
    uint32_t lo = sym_param("lo", 0), hi = sym_param("hi", 70);
    uint32_t s = lo + sym_choice("s", hi - lo + 1);
    Num a;
    mkLen(a, "a", N, pick("mode", NMODES));
    U want = a.mag << s;
    int k = N + (s + 31) / 32 + 1;
    BigInteger & r = (a.b <<= s);
    sym_assert(&r == &a.b, "returns-self");
    expectSM(a.b, a.neg, want, k, "value");
    expectKept(a, "copy-unchanged");
}
extern "C" void unit_shr() {
    int N = sym_param("n", 3);
    uint32_t lo = sym_param("lo", 0), hi = sym_param("hi", 70);
    uint32_t s = lo + sym_choice("s", hi - lo + 1);
    Num a;
    mkLen(a, "a", N, pick("mode", NMODES));
    I want = a.v >> s;
    BigInteger & r = (a.b >>= s);
    sym_assert(&r == &a.b, "returns-self");
    expectMag(a.b, want, N + 1, "value");
    expect2s(a.b, want, N + 1, "twos-complement");
    expectKept(a, "copy-unchanged");
}
// every shift amount that moves all the bits out
extern "C" void unit_shrall() {
    int N = sym_param("n", 3);
    Num a;
    mkLen(a, "a", N, pick("mode", NMODES));
    uint64_t s = sym_u64("s");
    sym_assume(s >= 32ull * N);
    a.b >>= s;
    expectMag(a.b, a.neg ? -1 : 0, N + 1, "value");
    expectKept(a, "copy-unchanged");
}
extern "C" void unit_shfree() {
    int N = sym_param("n", 2);
    static const int AM[] = {0, 1, 7, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128};
    int64_t s = AM[pick("s", sizeof AM / sizeof *AM)];
    Num a;
    mk(a, "a", 0, N, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    BigInteger l = a.b << s, r = a.b >> s;
    expectSM(l, a.neg, a.mag << (unsigned)s, N + 5, "left");
    expectMag(r, a.v >> (unsigned)s, N + 1, "right");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
    expectKept(a, "copy-unchanged");
    // a << s >> s gives a back
    l >>= s;
    expectSM(l, a.neg, a.mag, N + 5, "round-trip");
}

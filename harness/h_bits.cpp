// Bitwise operators on the infinite two's-complement representation; notBits on the magnitude.
#define VH_LIMBS 6
#include "vh.h"

static I apply(uint32_t op, I a, I b) { return op == 0 ? (a & b) : op == 1 ? (a | b) : (a ^ b); }
static void expectBoth(const BigInteger & b, I v, int k, const char * id) {
    expectMag(b, v, k, id);
    expect2s(b, v, k, id);
    sym_assert(b.isNegative() == (v < 0), id);
    sym_assert(b.isZero() == (v == 0), id);
}
extern "C" void unit_bitassign() {
    int N = sym_param("n", 2), M = sym_param("m", 2);
    int ma = pick("mode", NMODES);
    Num a, b;
    mkLen(a, "a", N, ma);
    mkLen(b, "b", M, ma == SHARED ? SHARED_TAIL_CACHED : ma == TAIL ? LEAD : FRESH);
    uint32_t op = pick("op", 3);
    I want = apply(op, a.v, b.v);
    BigInteger & r = op == 0 ? (a.b &= b.b) : op == 1 ? (a.b |= b.b) : (a.b ^= b.b);
    sym_assert(&r == &a.b, "returns-self");
    int k = (N > M ? N : M) + 2;
    expectBoth(a.b, want, k, "value");
    expectKept(a, "copy-unchanged");
    expectKept(b, "copy-unchanged");
    expectMag(b.b, b.v, M + 1, "operand-unchanged");
}
extern "C" void unit_bitfree() {
    int N = sym_param("n", 2), M = sym_param("m", 2);
    Num a, b;
    mk(a, "a", 0, N, FRESH);
    mk(b, "b", 0, M, FRESH);
    uint32_t op = pick("op", 3);
    BigInteger r = op == 0 ? a.b & b.b : op == 1 ? a.b | b.b : a.b ^ b.b;
    expectBoth(r, apply(op, a.v, b.v), (N > M ? N : M) + 2, "value");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
    expectMag(b.b, b.v, M + 1, "operand-unchanged");
}
extern "C" void unit_bitmixed() {
    int N = sym_param("n", 2);
    Num a;
    mk(a, "a", 0, N, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    Mi m = mkI64("i");
    uint32_t op = pick("op", 9);
    I want = apply(op % 3, a.v, m.v);
    BigInteger r;
    switch (op) {
    case 0: r = a.b & m.i; break;
    case 1: r = a.b | m.i; break;
    case 2: r = a.b ^ m.i; break;
    case 3: r = m.i & a.b; break;
    case 4: r = m.i | a.b; break;
    case 5: r = m.i ^ a.b; break;
    case 6: r = (a.b &= m.i); break;
    case 7: r = (a.b |= m.i); break;
    default: r = (a.b ^= m.i); break;
    }
    int k = (N > 2 ? N : 2) + 2;
    expectBoth(r, want, k, "value");
    expectMag(a.b, op < 6 ? a.v : want, k, "operand");
    expectKept(a, "copy-unchanged");
}
extern "C" void unit_not() {
    int N = sym_param("n", 3);
    Num a;
    mk(a, "a", 0, N, pick("mode", NMODES));
    I want = -a.v - 1;
    if (pick("op", 2)) {
        BigInteger r = ~a.b;
        expectBoth(r, want, N + 2, "complement");
        expectMag(a.b, a.v, N + 1, "operand-unchanged");
        expectBoth(~r, a.v, N + 2, "complement-twice");
    } else {
        BigInteger & r = a.b.notSelf();
        sym_assert(&r == &a.b, "returns-self");
        expectBoth(a.b, want, N + 2, "notSelf");
    }
    expectKept(a, "copy-unchanged");
}
// flips the bits of the magnitude below and including its highest set bit, keeping the sign
extern "C" void unit_notbits() {
    int N = sym_param("n", 3);
    Num a;
    mkLen(a, "a", N, pick("mode", NMODES));
    uint32_t hb = pick("bits", 32); // bit length of the top limb - 1: one path per value
    sym_assume((a.l[N - 1] >> hb) == 1);
    U mask = (U)0;
    for (int i = 0; i < N; ++i) mask |= (U)(i == N - 1 ? 0xffffffffu >> (31 - hb) : 0xffffffffu) << (32 * i);
    BigInteger & r = a.b.notBits();
    sym_assert(&r == &a.b, "returns-self");
    U want = ~a.mag & mask;
    expectSM(a.b, a.neg, want, N + 1, "value");
    I v = a.neg ? -(I)want : (I)want;
    expect2s(a.b, v, N + 1, "twos-complement");
    expectKept(a, "copy-unchanged");
    // the result is a usable number: one more operation
    a.b += 1;
    expectMag(a.b, v + 1, N + 1, "then-increment");
}
extern "C" void unit_notbits0() {
    Num a; mkLen(a, "a", 0, FRESH);
    a.b.notBits();
    sym_assert(a.b.isZero() && a.b == 0, "zero-stays-zero");
    a.b = BigInteger(5) - 5;
    a.b.notBits();
    sym_assert(a.b.isZero() && a.b == 0, "zero-stays-zero");
}

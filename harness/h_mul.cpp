// Multiplication.
#define VH_LIMBS 9
#include "vh.h"

extern "C" void unit_mulassign() {
    int N = sym_param("n", 2), M = sym_param("m", 2);
    int ma = pick("mode", NMODES);
    Num a, b;
    mkLen(a, "a", N, ma);
    mkLen(b, "b", M, ma == SHARED ? TAIL : ma == TAIL ? LEAD : FRESH);
    U want = mulMag(a.l, a.n, b.l, b.n);
    bool neg = a.neg != b.neg;
    BigInteger & r = (a.b *= b.b);
    sym_assert(&r == &a.b, "returns-self");
    vhCached = false; // which limb of a product is the lowest non-zero one is a hard question; mulcached asks it
    expectSM(a.b, neg, want, N + M, "value");
    expectKept(a, "copy-unchanged");
    expectMag(b.b, b.v, M + 1, "operand-unchanged");
}
extern "C" void unit_mulfree() {
    int N = sym_param("n", 2), M = sym_param("m", 2);
    Num a, b;
    mk(a, "a", 0, N, FRESH);
    mk(b, "b", 0, M, FRESH);
    U want = mulMag(a.l, a.n, b.l, b.n);
    bool neg = a.neg != b.neg;
    BigInteger r = a.b * b.b;
    vhCached = false; // which limb of a product is the lowest non-zero one is a hard question; mulcached asks it
    expectSM(r, neg, want, N + M, "value");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
    expectMag(b.b, b.v, M + 1, "operand-unchanged");
}
extern "C" void unit_mulmixed() {
    int N = sym_param("n", 2);
    Num a;
    mk(a, "a", 0, N, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    Mi m = mkI64("i");
    int64_t i = m.i;
    U want = mulMag(a.l, a.n, m.l, m.n);
    bool neg = a.neg != m.neg;
    BigInteger r;
    uint32_t op = pick("op", 3);
    switch (op) {
    case 0: r = a.b * i; break;
    case 1: r = i * a.b; break;
    default: a.b *= i; r = a.b; break;
    }
    vhCached = false; // which limb of a product is the lowest non-zero one is a hard question; mulcached asks it
    expectSM(r, neg, want, N + 2, "value");
    if (op < 2) expectMag(a.b, a.v, N + 2, "operand-unchanged");
    else expectSM(a.b, neg, want, N + 2, "value");
}
// the static function with the result object in any previous state
extern "C" void unit_mulstatic() {
    int N = sym_param("n", 2), M = sym_param("m", 2);
    Num a, b, o;
    mkLen(a, "a", N, pick("mode", 2) ? TAIL : FRESH);
    mkLen(b, "b", M, FRESH);
    mkLen(o, "old", 2, SHARED_TAIL_CACHED);
    auto impl = [](Num & x) { return BigIntegerImpl(x.b.absoluted().isZero() ? BigIntegerImpl() : *(*(std::unique_ptr<BigIntegerImpl> *)&x.b)); };
    BigIntegerImpl ia = impl(a), ib = impl(b), res = impl(o);
    BigIntegerImpl::mul(res, ia, ib);
    BigInteger r(std::make_unique<BigIntegerImpl>(res));
    vhCached = false; // which limb of a product is the lowest non-zero one is a hard question; mulcached asks it
    expectSM(r, a.neg != b.neg, mulMag(a.l, N, b.l, M), N + M, "value");
    expectMag(BigInteger(std::make_unique<BigIntegerImpl>(ia)), a.v, N + 1, "operand-unchanged");
}

// numbers with a cached index times fixed numbers that move the lowest non-zero limb
extern "C" void unit_mulcached() {
    int N = sym_param("n", 2);
    static const uint32_t L[][2] = {{0x10000, 0}, {0x80000000, 0}, {0, 1}, {0x10000, 0x10000}, {7, 0}};
    uint32_t d = pick("d", 5); int M = L[d][1] ? 2 : 1;
    Num a;
    mkLen(a, "a", N, CACHED);
    BigInteger b = build(L[d], M, true, 1, 0);
    BigInteger x = a.b;
    switch (pick("op", 4)) {
    case 0: x *= b; break;
    case 1: x = x * b; break;
    case 2: x = b * x; break;
    default: x *= -(int64_t)((uint64_t)L[d][1] << 32 | L[d][0]); break;
    }
    expectSM(x, !a.neg, mulMag(a.l, N, L[d], M), N + M, "value");
}

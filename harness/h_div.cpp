// Division and remainder: truncating, a == q*b + r, |r| < |b|, sign(r) == sign(a).
#define VH_LIMBS 7
#include "vh.h"

// divisors on which normalisation, quotient-digit estimation and correction take their rare paths
static const uint32_t DIV[][4] = {
    {0, 0x80000000u, 0, 0}, {1, 0x80000000u, 0, 0}, {0xffffffffu, 0x80000000u, 0, 0}, {0xffffffffu, 0xffffffffu, 0, 0},
    {0, 1, 0, 0}, {1, 1, 0, 0}, {0xffffffffu, 1, 0, 0}, {0, 0xffffffffu, 0, 0}, {0xffffffffu, 0x7fffffffu, 0, 0}, {3, 2, 0, 0}, {0x89abcdefu, 0x01234567u, 0, 0},
    {0, 0, 0x80000000u, 0}, {1, 0, 0x80000000u, 0}, {0xffffffffu, 0, 0x80000000u, 0}, {0xffffffffu, 0xffffffffu, 0x80000000u, 0},
    {0xffffffffu, 0xffffffffu, 0xffffffffu, 0}, {0, 0, 1, 0}, {1, 0, 1, 0}, {0xffffffffu, 0xffffffffu, 1, 0}, {0, 0xfffffffeu, 0x80000000u, 0}, {0x89abcdefu, 0x01234567u, 0x76543210u, 0},
    {0xffffffffu, 0, 0, 1}, {0, 0, 0, 0x80000000u}, {1, 0xffffffffu, 0xfffffffeu, 0x80000000u},
};
constexpr int NDIV = sizeof DIV / sizeof *DIV;
static void readMag(const BigInteger & b, uint32_t * l, int k) {
    BigInteger m = b.absoluted();
    for (int i = 0; i < k; ++i) { l[i] = m.get2sComplement(i); sym_observe("limb", l[i]); }
}
static void expectDiv(const Num & a, const uint32_t * d, int m, bool dneg, const BigInteger & q, const BigInteger & r) {
    uint32_t ql[KW] = {}, rl[KW] = {};
    int nq = a.n, nr = m < a.n ? m : a.n;
    readMag(q, ql, a.n + 1); readMag(r, rl, (a.n > m ? a.n : m) + 1);
    uint32_t hi = ql[nq];
    for (int i = nr; i <= (a.n > m ? a.n : m); ++i) hi |= rl[i];
    sym_assert(hi == 0, "size");
    U rm = composeMag(rl, nr);
    sym_assert(mulMag(ql, nq, d, m) + rm == a.mag, "a=q*b+r");
    sym_assert(rm < composeMag(d, m), "r<b");
    uint32_t qz = 0, rz = 0;
    for (int i = 0; i < nq; ++i) qz |= ql[i];
    for (int i = 0; i < nr; ++i) rz |= rl[i];
    sym_assert(q.isZero() == (qz == 0), "zero-flag-q");
    sym_assert(r.isZero() == (rz == 0), "zero-flag-r");
    sym_assert(q.isNegative() == (qz != 0 && a.neg != dneg), "sign-q");
    sym_assert(r.isNegative() == (rz != 0 && a.neg), "sign-r");
}
static BigInteger mkDivisor(const uint32_t * d, int m, bool neg) { return build(d, m, neg, 1, 0); }

// dividend of n arbitrary limbs, divisor a fixed one
extern "C" void unit_divconst() {
    int N = sym_param("n", 3);
    uint32_t k = pick("d", NDIV);
    int m = 4; while (m > 1 && DIV[k][m - 1] == 0) --m;
    Num a;
    mk(a, "a", N, N, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    bool dneg = pick("dneg", 2);
    BigInteger b = mkDivisor(DIV[k], m, dneg), b0 = b;
    BigInteger q, r;
    switch (pick("op", 2)) {
    case 0: q = a.b / b; r = a.b % b; expectKept(a, "copy-unchanged"); expectMag(a.b, a.v, N + 1, "operand-unchanged"); break;
    default: q = a.b; r = a.b; { BigInteger & x = (q /= b), & y = (r %= b); sym_assert(&x == &q && &y == &r, "returns-self"); } expectKept(a, "copy-unchanged"); break;
    }
    sym_assert(b.cmp(b0) == 0, "divisor-unchanged");
    expectDiv(a, DIV[k], m, dneg, q, r);
}
// arbitrary one-limb divisor
extern "C" void unit_divsmall() {
    int N = sym_param("n", 1);
    Num a, b;
    mk(a, "a", 0, N, FRESH);
    mkLen(b, "b", 1, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    BigInteger q = a.b / b.b, r = a.b % b.b;
    expectDiv(a, b.l, 1, b.neg, q, r);
    expectKept(b, "copy-unchanged");
}
// |a| against |b| of the same or smaller length: quotient 0, +-1 or small
extern "C" void unit_divsmaller() {
    int N = sym_param("n", 1), M = sym_param("m", 2);
    Num a, b;
    mk(a, "a", 0, N, FRESH);
    mkLen(b, "b", M, FRESH);
    sym_assume(a.mag <= b.mag);
    BigInteger q = a.b / b.b, r = a.b % b.b;
    bool eq = a.mag == b.mag;
    if (eq) { expectSM(q, a.neg != b.neg, 1, 1, "quotient-one"); sym_assert(r.isZero(), "remainder-zero"); }
    else { sym_assert(q.isZero(), "quotient-zero"); expectMag(r, a.v, N + 1, "remainder-is-dividend"); }
}
// quotient constructed: a = k*b + r for a one-limb symbolic k and a fixed b
extern "C" void unit_divmixed() {
    static const int64_t DI[] = {1, -1, 2, -3, 10, 0x7fffffff, 0x80000000, 0xffffffff, -0xffffffffll, 0x100000000ll, 0x100000001ll, -0x100000000ll, INT64_MAX, INT64_MIN, 1000000007, -1000000000000000000ll};
    int N = sym_param("n", 2);
    int64_t i = DI[pick("d", sizeof DI / sizeof *DI)];
    uint64_t mi = i < 0 ? 0 - (uint64_t)i : i;
    uint32_t l[2] = {(uint32_t)mi, (uint32_t)(mi >> 32)};
    Num a;
    mk(a, "a", 0, N, FRESH);
    BigInteger q, r;
    if (pick("op", 2)) { q = a.b / i; r = a.b % i; }
    else { q = a.b; q /= i; r = a.b; r %= i; }
    expectDiv(a, l, l[1] ? 2 : 1, i < 0, q, r);
}
// a fixed dividend given as an integer over an arbitrary divisor
extern "C" void unit_divleft() {
    static const int64_t DI[] = {0, 1, -1, 7, -0x80000000ll, 0xffffffff, 0x100000000ll, INT64_MAX, INT64_MIN};
    int64_t i = DI[pick("d", sizeof DI / sizeof *DI)];
    uint64_t mi = i < 0 ? 0 - (uint64_t)i : i;
    Num a, b;
    a.l[0] = mi; a.l[1] = mi >> 32; a.n = a.l[1] ? 2 : a.l[0] ? 1 : 0; a.neg = i < 0; a.mag = mi; a.v = i;
    mk(b, "b", 1, sym_param("m", 1), FRESH);
    BigInteger q = i / b.b, r = i % b.b;
    expectDiv(a, b.l, b.n, b.neg, q, r);
}
// dividend and divisor arbitrary; the divisor's leading zero bits fixed by the parameter
extern "C" void unit_divsym() {
    int N = sym_param("n", 2), M = sym_param("m", 2);
    uint32_t lz = sym_param("lz", 0);
    Num a, b;
    mkLen(a, "a", N, FRESH);
    mkLen(b, "b", M, FRESH);
    sym_assume((b.l[M - 1] >> (31 - lz)) == 1);
    BigInteger q = a.b / b.b, r = a.b % b.b;
    expectDiv(a, b.l, M, b.neg, q, r);
}

// results that are the operands themselves: the operations of the implementation that give quotient and remainder
extern "C" void unit_divalias() {
    int N = sym_param("n", 2);
    static const int K[] = {0, 5, 10, 13}; // two of two limbs (one with leading zero bits), two of three
    static const uint32_t ONE[] = {1, 2, 7, 0x80000000u, 0xffffffffu};
    uint32_t k = pick("d", 9);
    uint32_t d[4] = {}; int m = 1;
    if (k < 5) d[0] = ONE[k];
    else { for (int i = 0; i < 4; ++i) d[i] = DIV[K[k - 5]][i]; m = 4; while (m > 1 && d[m - 1] == 0) --m; }
    Num a;
    mk(a, "a", N, N, FRESH);
    bool dneg = pick("dneg", 2);
    auto impl = [](const uint32_t * l, int n, bool neg) { auto v = std::make_shared<std::vector<uint32_t>>(n + 1); for (int i = 0; i < n; ++i) (*v)[i] = l[i]; return std::make_unique<BigIntegerImpl>(pgbn::Slice<std::uint32_t>(v, 0, n), neg ? -1 : 1); };
    auto x = impl(a.l, a.n, a.neg), y = impl(d, m, dneg), z = std::make_unique<BigIntegerImpl>(5);
    BigIntegerImpl keepx(*x), keepy(*y);
    std::unique_ptr<BigIntegerImpl> q, r;
    switch (pick("op", 9)) {
    case 0: x->divideAssignAndReminder(*y, *y); q = std::move(x); r = std::move(y); break;
    case 1: x->modAssignAndQuotient(*y, *y); q = std::move(y); r = std::move(x); break;
    case 2: BigIntegerImpl::div(*x, *z, *x, *y); q = std::move(x); r = std::move(z); break;
    case 3: BigIntegerImpl::div(*y, *z, *x, *y); q = std::move(y); r = std::move(z); break;
    case 4: BigIntegerImpl::div(*z, *x, *x, *y); q = std::move(z); r = std::move(x); break;
    case 5: BigIntegerImpl::div(*z, *y, *x, *y); q = std::move(z); r = std::move(y); break;
    case 6: BigIntegerImpl::div(*x, *y, *x, *y); q = std::move(x); r = std::move(y); break;
    case 7: BigIntegerImpl::div(*y, *x, *x, *y); q = std::move(y); r = std::move(x); break;
    default: x->divideAssignAndReminder(*y, *z); q = std::move(x); r = std::move(z); break;
    }
    expectDiv(a, d, m, dneg, BigInteger(std::move(q)), BigInteger(std::move(r)));
    expectMag(BigInteger(std::make_unique<BigIntegerImpl>(keepx)), a.v, N + 1, "copy-unchanged");
    U dv = composeMag(d, m); if (dneg) dv = 0 - dv;
    expectMag(BigInteger(std::make_unique<BigIntegerImpl>(keepy)), dv, m + 1, "copy-unchanged");
}
// the same number on both sides
extern "C" void unit_divself() {
    int N = sym_param("n", 1);
    Num a; mkLen(a, "a", N, pick("mode", NMODES));
    auto v = std::make_shared<std::vector<uint32_t>>(N + 1); for (int i = 0; i < N; ++i) (*v)[i] = a.l[i];
    BigIntegerImpl x(pgbn::Slice<std::uint32_t>(v, 0, N), a.neg ? -1 : 1), z(5);
    switch (pick("op", 3)) {
    case 0: x.divideAssignAndReminder(x, z); break;
    case 1: { BigIntegerImpl t(x); t.modAssignAndQuotient(t, z); std::swap(t, z); x = t; } break;
    default: BigIntegerImpl::div(x, z, x, x); break;
    }
    sym_assert(x.isOne(), "quotient-one"); sym_assert(z.isZero(), "remainder-zero");
}

// Comparison: the order of the integers, by every operator.
#include "vh.h"

static void expectOps(bool eq, bool ne, bool lt, bool le, bool gt, bool ge, int w, const char * id) {
    sym_observe("ops", eq | ne << 1 | lt << 2 | le << 3 | gt << 4 | ge << 5);
    sym_assert(eq == (w == 0), id);
    sym_assert(ne == (w != 0), id);
    sym_assert(lt == (w < 0), id);
    sym_assert(le == (w <= 0), id);
    sym_assert(gt == (w > 0), id);
    sym_assert(ge == (w >= 0), id);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
extern "C" void unit_cmp() {
    int N = sym_param("n", 2), M = sym_param("m", 2);
    int ma = pick("mode", NMODES);
    Num a, b;
    mkLen(a, "a", N, ma);
    mkLen(b, "b", M, ma == SHARED ? SHARED_TAIL_CACHED : ma == TAIL ? LEAD : FRESH);
    int w = a.v < b.v ? -1 : a.v > b.v ? 1 : 0;
    const BigInteger & x = a.b, & y = b.b;
    int c = x.cmp(y);
    sym_assert(sgn(c) == w, "cmp");
    sym_assert(sgn(y.cmp(x)) == -w, "cmp-reversed");
    expectOps(x == y, x != y, x < y, x <= y, x > y, x >= y, w, "operators");
    BigInteger z = x; // shares the limbs
    expectOps(x == z, x != z, x < z, x <= z, x > z, x >= z, 0, "with-copy");
    expectOps(x == x, x != x, x < x, x <= x, x > x, x >= x, 0, "with-itself");
    sym_assert(z.cmp(y) == c, "copy-compares-alike");
    z.negate();
    int wz = -a.v < b.v ? -1 : -a.v > b.v ? 1 : 0;
    sym_assert(sgn(z.cmp(y)) == wz, "negated-copy");
    sym_assert(sgn(z.cmp(x)) == (a.v == 0 ? 0 : a.v > 0 ? -1 : 1), "negated-copy-with-original");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
    expectMag(b.b, b.v, M + 1, "operand-unchanged");
}
extern "C" void unit_cmpmixed() {
    int N = sym_param("n", 2);
    Num a;
    mk(a, "a", 0, N, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    Mi m = mkI64("i");
    int64_t i = m.i;
    int w = a.v < m.v ? -1 : a.v > m.v ? 1 : 0;
    const BigInteger & x = a.b;
    sym_assert(sgn(x.cmp(i)) == w, "cmp");
    expectOps(x == i, x != i, x < i, x <= i, x > i, x >= i, w, "number-with-int64");
    expectOps(i == x, i != x, i < x, i <= x, i > x, i >= x, -w, "int64-with-number");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
}

// two numbers that are windows onto the same limbs
extern "C" void unit_cmpwindows() {
    int n = sym_param("n", 4);
    auto v = std::make_shared<std::vector<uint32_t>>(n);
    uint32_t l[8];
    for (int i = 0; i < n; ++i) l[i] = (*v)[i] = sym_u32("a");
    int lo1 = sym_choice("lo", n), lo2 = sym_choice("lo", n), hi1 = lo1 + 1 + sym_choice("hi", n - lo1), hi2 = lo2 + 1 + sym_choice("hi", n - lo2);
    bool na = sym_choice("neg", 2), nb = sym_choice("neg", 2);
    sym_assume(l[hi1 - 1] != 0); sym_assume(l[hi2 - 1] != 0);
    BigInteger a(std::make_unique<BigIntegerImpl>(Sl(v, lo1, hi1), na ? -1 : 1)), b(std::make_unique<BigIntegerImpl>(Sl(v, lo2, hi2), nb ? -1 : 1));
    I x = (I)composeMag(l + lo1, hi1 - lo1), y = (I)composeMag(l + lo2, hi2 - lo2);
    if (na) x = -x;
    if (nb) y = -y;
    int w = x < y ? -1 : x > y;
    sym_assert(sgn(a.cmp(b)) == w, "cmp");
    expectOps(a == b, a != b, a < b, a <= b, a > b, a >= b, w, "operators");
    BigInteger d = a - b, e = a + b;
    expectMag(d, x - y, n + 1, "difference"); expectMag(e, x + y, n + 1, "sum");
    expectMag(a, x, n, "operand-unchanged"); expectMag(b, y, n, "operand-unchanged");
    a += 1; a.negate(); expectMag(b, y, n, "window-unchanged"); expectMag(a, -(x + 1), n + 1, "window-written");
}

// Divide-and-conquer multiplication. One factor has any limbs, the other one is taken from a list of patterns, so that every
// question stays linear; with the size threshold lowered by the hook, or long factors that are fixed but for a few limbs.
#define VH_LIMBS 12
#include "vh.h"
static void fixedLimbs(uint32_t * l, int n, int pat) {
    for (int i = 0; i < n; ++i) switch (pat) {
    case 0: l[i] = 0xffffffff; break;
    case 1: l[i] = i == n - 1 ? 1 : 0; break;                                  // a power of the base: the low half is zero
    case 2: l[i] = i == n - 1 ? 0xffffffff : i == 0 ? 1 : 0; break;            // zeros in between
    case 3: l[i] = 0x9e3779b9u * (i + 1); break;
    case 4: l[i] = i >= (n + 1) / 2 ? 0x80000000u : 0; break;                  // the whole low half is zero
    case 5: l[i] = i == n - 1 ? 2 : i < n / 2 ? 0xffffffff : 0; break;         // zeros at the low end of the high half
    default: l[i] = i % 2 ? 0 : 3; if (i == n - 1) l[i] = 0x7fffffff; break;
    }
}
constexpr int NPAT = 7;
// 0 any pattern, 1 those that make linear questions, 2 those with many set bits
static int pickPat(const char * name, int which) {
    static const int simple[] = {1, 2, 4, 5}, dense[] = {0, 3, 6};
    return which == 1 ? simple[pick(name, 4)] : which == 2 ? dense[pick(name, 3)] : pick(name, NPAT);
}
static BigIntegerImpl & impl(BigInteger & b) { return **(std::unique_ptr<BigIntegerImpl> *)&b; }
struct Fac { uint32_t l[2 * VH_LIMBS] = {}; int n; bool neg; BigInteger b; };
static void mkFixed(Fac & f, int n, int pat) { f.n = n; fixedLimbs(f.l, n, pat); f.neg = sym_choice("neg", 2); f.b = build(f.l, n, f.neg, 0, 0); }

extern "C" void unit_kara() {
    int N = sym_param("n", 3), M = sym_param("m", 3), at = pick("at", N);
    Fac a; mkFixed(a, N, pick("pata", NPAT));
    int bits = (int)sym_param("bits", 32);
    if (bits == 32) a.l[at] = sym_u32("limb");
    else { uint32_t sh = pick("shift", 32 / bits) * bits; a.l[at] ^= (uint32_t)sym_range("limb", 0, (1u << bits) - 1) << sh; } // some bits of the limb
    if (at == N - 1) sym_assume(a.l[at] != 0);
    a.b = build(a.l, N, a.neg, pick("lead", 2), 0);
    Fac f; mkFixed(f, M, pickPat("pat", (int)sym_param("pats", 0)));
    U want = mulMag(a.l, N, f.l, M);
    bool neg = a.neg != f.neg;
    int op = pick("op", 6);
    BigInteger r, keepA = a.b, keepF = f.b;
    BigIntegerImpl res(12345);
    switch (op) {
    case 0: a.b *= f.b; r = a.b; break;
    case 1: f.b *= a.b; r = f.b; break;
    case 2: r = a.b * f.b; break;
    case 3: BigIntegerImpl::mul(res, impl(f.b), impl(a.b)); r = BigInteger(std::make_unique<BigIntegerImpl>(res)); break;
    case 4: BigIntegerImpl::mul(impl(a.b), impl(a.b), impl(f.b)); r = a.b; break;
    default: BigIntegerImpl::mul(impl(a.b), impl(f.b), impl(a.b)); r = a.b; break;
    }
    vhCached = false;
    expectSM(r, neg, want, N + M, "value");
    expectSM(keepA, a.neg, composeMag(a.l, N), N, "copy-unchanged");
    expectSM(keepF, f.neg, composeMag(f.l, M), M, "copy-unchanged");
    if (op == 2 || op == 3) { expectSM(a.b, a.neg, composeMag(a.l, N), N, "operand-unchanged"); expectSM(f.b, f.neg, composeMag(f.l, M), M, "operand-unchanged"); }
}
// the same number on both sides, in the destination too
extern "C" void unit_square() {
    int N = sym_param("n", 3);
    Fac f; mkFixed(f, N, pick("pat", NPAT));
    U want = mulMag(f.l, N, f.l, N);
    BigInteger r, other = f.b;
    switch (pick("op", 5)) {
    case 0: f.b *= f.b; r = f.b; break;
    case 1: f.b *= other; r = f.b; break;
    case 2: r = f.b * f.b; break;
    case 3: BigIntegerImpl::mul(impl(f.b), impl(f.b), impl(f.b)); r = f.b; break;
    default: BigIntegerImpl::mul(impl(f.b), impl(other), impl(f.b)); r = f.b; break;
    }
    expectSM(r, false, want, 2 * N, "value");
    expectSM(other, f.neg, composeMag(f.l, N), N, "copy-unchanged");
}
// factors beyond the real threshold: fixed limbs but for a few
constexpr int MAXL = 200;
extern "C" void unit_long() {
    int N = sym_param("n", 80), M = sym_param("m", 80);
    static uint32_t a[MAXL], b[MAXL], w[2 * MAXL];
    fixedLimbs(a, N, pick("pata", NPAT)); fixedLimbs(b, M, pickPat("pat", (int)sym_param("pats", 0)));
    int at = (int)sym_param("at", 0);
    a[at] = sym_u32("limb"); if (sym_param("two", 0)) a[N - 1] = sym_u32("limb");
    sym_assume(a[N - 1] != 0);
    bool na = sym_choice("neg", 2), nb = sym_choice("neg", 2);
    BigInteger x = build(a, N, na, 0, 0), y = build(b, M, nb, 0, 0), r;
    for (int i = 0; i < N + M; ++i) w[i] = 0;
    for (int i = 0; i < N; ++i) { uint64_t c = 0; for (int j = 0; j < M; ++j) { c += (uint64_t)a[i] * b[j] + w[i + j]; w[i + j] = (uint32_t)c; c >>= 32; } w[i + M] = (uint32_t)c; }
    switch (pick("op", 3)) {
    case 0: r = x * y; break;
    case 1: r = y * x; break;
    default: x *= y; r = x; break;
    }
    sym_assert(r.isNegative() == (na != nb) && !r.isZero(), "sign");
    BigInteger m = r.absoluted();
    uint32_t d = 0;
    for (int i = 0; i <= N + M; ++i) { uint32_t g = m.get2sComplement(i); sym_observe("limb", g); d |= g ^ (i < N + M ? w[i] : 0); }
    sym_assert(d == 0, "value");
}

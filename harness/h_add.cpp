// Addition, subtraction, increment, decrement, sign changes.
#include "vh.h"

// every representation state of the left operand, compound operators
extern "C" void unit_addassign() {
    int N = sym_param("n", 2), M = sym_param("m", 2);
    int ma = pick("mode", NMODES);
    Num a, b;
    mkLen(a, "a", N, ma);
    mkLen(b, "b", M, ma == SHARED ? TAIL : ma == TAIL ? LEAD : FRESH);
    bool sub = pick("op", 2);
    I want = sub ? a.v - b.v : a.v + b.v;
    BigInteger & r = sub ? (a.b -= b.b) : (a.b += b.b);
    sym_assert(&r == &a.b, "returns-self");
    int k = (N > M ? N : M) + 1;
    expectMag(a.b, want, k, "value");
    expectKept(a, "copy-unchanged");
    expectMag(b.b, b.v, M + 1, "operand-unchanged");
}

// free operators leave both operands alone
extern "C" void unit_addfree() {
    int N = sym_param("n", 2), M = sym_param("m", 2);
    Num a, b;
    mk(a, "a", 0, N, FRESH);
    mk(b, "b", 0, M, FRESH);
    bool sub = pick("op", 2);
    I want = sub ? a.v - b.v : a.v + b.v;
    BigInteger r = sub ? a.b - b.b : a.b + b.b;
    int k = (N > M ? N : M) + 1;
    expectMag(r, want, k, "value");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
    expectMag(b.b, b.v, M + 1, "operand-unchanged");
}

// mixed operations with every 64-bit integer
extern "C" void unit_addmixed() {
    int N = sym_param("n", 2);
    Num a;
    mk(a, "a", 0, N, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    Mi m = mkI64("i");
    int64_t i = m.i; I iv = m.v;
    I want; BigInteger r;
    switch (pick("op", 6)) {
    case 0: r = a.b + i; want = a.v + iv; break;
    case 1: r = i + a.b; want = a.v + iv; break;
    case 2: r = a.b - i; want = a.v - iv; break;
    case 3: r = i - a.b; want = iv - a.v; break;
    case 4: a.b += i; r = a.b; want = a.v + iv; a.v = want; break;
    default: a.b -= i; r = a.b; want = a.v - iv; a.v = want; break;
    }
    int k = (N > 2 ? N : 2) + 1;
    expectMag(r, want, k, "value");
    expectMag(a.b, a.v, k, "operand");
}

extern "C" void unit_incdec() {
    int N = sym_param("n", 3);
    Num a;
    mk(a, "a", 0, N, pick("mode", NMODES));
    I want = a.v, old = a.v;
    BigInteger ret; I wantRet;
    switch (pick("op", 4)) {
    case 0: want = a.v + 1; ret = ++a.b; wantRet = want; break;
    case 1: want = a.v + 1; ret = a.b++; wantRet = old; break;
    case 2: want = a.v - 1; ret = --a.b; wantRet = want; break;
    default: want = a.v - 1; ret = a.b--; wantRet = old; break;
    }
    expectMag(a.b, want, N + 1, "value");
    expectMag(ret, wantRet, N + 1, "returned-value");
    expectKept(a, "copy-unchanged");
}

extern "C" void unit_negabs() {
    int N = sym_param("n", 3);
    Num a;
    mk(a, "a", 0, N, pick("mode", NMODES));
    I ab = a.v < 0 ? -a.v : a.v;
    switch (pick("op", 6)) {
    case 0: expectMag(-a.b, -a.v, N + 1, "negative"); break;
    case 1: expectMag(a.b.negated(), -a.v, N + 1, "negated"); break;
    case 2: expectMag(a.b.absoluted(), ab, N + 1, "absoluted"); break;
    case 3: expectMag(+a.b, a.v, N + 1, "plus"); break;
    case 4: { BigInteger & r = a.b.negate(); sym_assert(&r == &a.b, "returns-self"); a.v = -a.v; break; }
    default: { BigInteger & r = a.b.abs(); sym_assert(&r == &a.b, "returns-self"); a.v = ab; break; }
    }
    expectMag(a.b, a.v, N + 1, "value");
    expect2s(a.b, a.v, N + 1, "twos-complement");
}

// Canonical results, queries, histories.
#define VH_LIMBS 7
#include "mut.h"

static BigInteger twin(const Num & a) { return a.n ? build(a.l, a.n, a.neg, 1, 0) : BigInteger(); }

// b cannot be told from a freshly built number of the same value
static void indistinguishable(const BigInteger & b, int k, bool text) {
    BigInteger m = b.absoluted();
    uint32_t l[KW]; int n = 0;
    for (int i = 0; i < k; ++i) { l[i] = m.get2sComplement(i); sym_observe("limb", l[i]); }
    for (int i = 0; i < k; ++i) if (l[i] != 0) n = i + 1;
    bool neg = b.isNegative();
    sym_assert(n > 0 || (!neg && b.isZero()), "signed-zero");
    BigInteger f = n ? build(l, n, neg, 1, 0) : BigInteger();
    sym_assert(b.cmp(f) == 0 && f.cmp(b) == 0, "cmp");
    sym_assert(b == f && !(b != f) && b <= f && b >= f && !(b < f) && !(b > f), "operators");
    sym_assert(b.isZero() == f.isZero() && b.isPositive() == f.isPositive() && b.isNegative() == f.isNegative() && b.isOne() == f.isOne() && b.isNegOne() == f.isNegOne() && b.isEven() == f.isEven() && b.isOdd() == f.isOdd(), "predicates");
    unsigned char x[4 * KW + 4], y[4 * KW + 4];
    uint64_t nx = b.copyMagDataTo(x, sizeof x), ny = f.copyMagDataTo(y, sizeof y);
    sym_assert(nx == ny, "exported-size");
    uint32_t d = 0;
    for (uint64_t i = 0; i < nx; ++i) d |= x[i] ^ y[i];
    for (int i = 0; i < k + 1; ++i) d |= b.get2sComplement(i) ^ f.get2sComplement(i);
    bool fx, fy, gx, gy;
    d |= (uint32_t)(b.getInt64(&fx) != f.getInt64(&fy));
    d |= (uint32_t)(b.getUInt64(&gx) != f.getUInt64(&gy));
    sym_assert(d == 0 && fx == fy && gx == gy, "exported");
    if (text) sym_assert(b.toString(16) == f.toString(16), "text");
    // later operations behave alike
    BigInteger p(b), q(f); p.notSelf(); q.notSelf();
    d = 0;
    for (int i = 0; i < k + 1; ++i) d |= p.get2sComplement(i) ^ q.get2sComplement(i);
    p = b; q = f; p.notBits(); q.notBits();
    for (int i = 0; i < k + 1; ++i) d |= p.get2sComplement(i) ^ q.get2sComplement(i);
    p = b; q = f; p.negate(); q.negate();
    for (int i = 0; i < k + 1; ++i) d |= p.get2sComplement(i) ^ q.get2sComplement(i);
    p = b; q = f; p <<= 3; q <<= 3;
    for (int i = 0; i < k + 1; ++i) d |= p.get2sComplement(i) ^ q.get2sComplement(i);
    sym_assert(d == 0, "then");
}
extern "C" void unit_canon() {
    int n = sym_param("n", 2), m = sym_param("m", 1);
    uint32_t lo = sym_param("lo", 0), op = lo + sym_choice("op", sym_param("hi", NMUT) - lo);
    Num a, o;
    mkLen(a, "a", n, pick("mode", NMODES));
    if ((op == 3 || op == 4) && m == 0) return;
    if (op >= 2 && op <= 4) {
        static const uint32_t L[] = {0x89abcdef, 3, 0x80000001};
        if (m) o.b = build(L, m, true, 1, 0);
    } else mkLen(o, "o", m, FRESH);
    Args g; g.o = o.b; g.i = 0; g.txt = op == 32 && pick("txt", 2) ? "-000" : "00fffffffffffffffff";
    if (op == 8 || op == 9 || (op >= 13 && op <= 15) || op == 30 || op == 31) g.i = mkI64("i").i;
    for (auto & c : g.bin) c = op == 33 ? sym_u8("bin") : 0;
    BigInteger r = mutate(a.b, op, g);
    int k = (n > m ? n : m) + (op == 2 ? m : 0) + 4;
    if (k > KW) k = KW;
    indistinguishable(a.b, k, sym_param("text", 0));
    if (op == 24 || op == 25) indistinguishable(r, n + 1, false);
}
// results of the free and static functions
extern "C" void unit_canonfree() {
    int n = sym_param("n", 2), m = sym_param("m", 2);
    Num a, b;
    mkLen(a, "a", n, pick("mode", 2) ? SHARED_TAIL_CACHED : LEAD);
    mkLen(b, "b", m, FRESH);
    BigInteger r; int k = (n > m ? n : m) + 1;
    switch (pick("op", 12)) {
    case 0: r = a.b + b.b; break;
    case 1: r = a.b - b.b; break;
    case 2: r = a.b & b.b; break;
    case 3: r = a.b | b.b; break;
    case 4: r = a.b ^ b.b; break;
    case 5: r = ~a.b; break;
    case 6: r = -a.b; break;
    case 7: r = a.b >> 32; break;
    case 8: r = a.b << 31; break;
    case 9: r = a.b >> 63; break;
    case 10: r = +a.b; break;
    default: r = a.b.absoluted(); break;
    }
    indistinguishable(r, k, false);
}

struct Answer { uint64_t v[4] = {}; std::string s; };
constexpr uint32_t NQ = 22;
static Answer ask(const BigInteger & b, uint32_t q, const BigInteger & o) {
    Answer r;
    bool f = false;
    switch (q) {
    case 0: r.v[0] = b.isZero(); break;
    case 1: r.v[0] = b.isOne(); break;
    case 2: r.v[0] = b.isNegOne(); break;
    case 3: r.v[0] = b.isPositive() * 2 + b.isNegative(); break;
    case 4: r.v[0] = b.isEven() * 2 + b.isOdd(); break;
    case 5: r.v[0] = b.get2sComplement(0); r.v[1] = b.get2sComplement(1); break;
    case 6: r.v[0] = b.get2sComplement(2); r.v[1] = b.get2sComplement(0); r.v[2] = b.get2sComplement(7); break;
    case 7: r.v[0] = b.getInt64(&f); r.v[1] = f; break;
    case 8: r.v[0] = b.getUInt64(&f); r.v[1] = f; break;
    case 9: { int64_t x = 0; r.v[0] = b.tryGetInt64(x); r.v[1] = x; break; }
    case 10: r.v[0] = (uint64_t)b.as<int32_t>(); r.v[1] = b.as<uint64_t>(); break;
    case 11: r.s = b.toString(16); break;
    case 12: { unsigned char buf[16] = {}; r.v[0] = b.copyMagDataTo(buf, 5); r.v[1] = buf[0] | buf[3] << 8 | buf[4] << 16; break; }
    case 13: r.v[0] = (uint64_t)b.cmp(o); break;
    case 14: r.v[0] = (b == o) | (b < o) << 1 | (b >= o) << 2; break;
    case 15: { BigInteger t = ~b; r.v[0] = t.get2sComplement(0); r.v[1] = t.get2sComplement(1); break; }
    case 16: { BigInteger t = -b; r.v[0] = t.get2sComplement(0); r.v[1] = t.get2sComplement(1); break; }
    case 17: { BigInteger t = b.absoluted(); r.v[0] = t.get2sComplement(0); r.v[1] = t.get2sComplement(1); break; }
    case 18: { BigInteger t = b + o; r.v[0] = t.get2sComplement(0); r.v[1] = t.get2sComplement(1); break; }
    case 19: { BigInteger t = b & o; r.v[0] = t.get2sComplement(0); r.v[1] = t.get2sComplement(1); break; }
    case 20: { BigInteger t = b >> 5; r.v[0] = t.get2sComplement(0); r.v[1] = t.get2sComplement(1); break; }
    default: { BigInteger t = o - b; r.v[0] = t.get2sComplement(0); r.v[1] = t.get2sComplement(1); break; }
    }
    return r;
}
static void same(const Answer & a, const Answer & b, const char * id) {
    uint64_t d = 0;
    for (int i = 0; i < 4; ++i) { sym_observe("ans", a.v[i]); d |= a.v[i] ^ b.v[i]; }
    sym_assert(d == 0, id);
    sym_assert(a.s == b.s, id);
}
extern "C" void unit_queries() {
    int n = sym_param("n", 2);
    Num a, o;
    mkLen(a, "a", n, pick("mode", NMODES));
    mkLen(o, "o", 1, FRESH);
    uint32_t lo = sym_param("lo", 0), q1 = lo + sym_choice("q1", sym_param("hi", NQ) - lo), q2 = sym_choice("q2", NQ);
    BigInteger f1 = twin(a), f2 = twin(a), copy = a.b;
    const BigInteger & second = pick("on", 2) ? copy : a.b;
    Answer a1 = ask(a.b, q1, o.b), a2 = ask(second, q2, o.b), a3 = ask(a.b, q1, o.b), a4 = ask(copy, q1, o.b);
    Answer w1 = ask(f1, q1, o.b), w2 = ask(f2, q2, o.b);
    same(a1, w1, "first-answer"); same(a2, w2, "second-answer"); same(a3, w1, "asked-again"); same(a4, w1, "copy-answer");
    expectMag(a.b, a.v, n + 1, "value-unchanged");
    expect2s(a.b, a.v, n + 1, "value-unchanged");
    expectMag(copy, a.v, n + 1, "copy-unchanged");
    expectMag(o.b, o.v, 2, "operand-unchanged");
    expectKept(a, "copy-unchanged");
}

// a history of operations on two numbers against exact integers: sign, magnitude and a bound on its limbs
struct S { bool neg = false; U mag = 0; int k = 0; };
static U low(U m, int k) { return k >= KW ? m : m & (((U)1 << (32 * k)) - 1); }
static S norm(S x) { if (x.k > KW) x.k = KW; if (x.neg && sym_concretize(x.mag == 0)) x.neg = false; return x; }
static S addS(const S & x, const S & y) {
    S r; r.k = x.k > y.k ? x.k : y.k;
    if (x.neg == y.neg) { r.neg = x.neg; r.mag = x.mag + y.mag; ++r.k; return norm(r); }
    if (sym_concretize(x.mag >= y.mag)) { r.neg = x.neg; r.mag = low(x.mag - y.mag, r.k); }
    else { r.neg = y.neg; r.mag = low(y.mag - x.mag, r.k); }
    return norm(r);
}
static S konst(I v) { S r; r.neg = v < 0; r.mag = magOf(v); for (U m = r.mag; m; m >>= 32) ++r.k; return r; }
static S flip(S x) { x.neg = !x.neg; return norm(x); }
static U two(const S & x) { return x.neg ? 0 - x.mag : x.mag; }
static S fromTwo(bool neg, U t, int k) { S r; r.neg = neg; r.k = k + neg; r.mag = low(neg ? 0 - t : t, r.k); return norm(r); }
static S shr(S x, int n) { x.mag = (x.neg ? x.mag + (((U)1 << n) - 1) : x.mag) >> n; x.k = x.k + 1 - n / 32; if (x.k < 0) x.k = 0; return norm(x); }
static S shl(S x, int n) { x.mag <<= n; x.k += (n + 31) / 32; return norm(x); }
constexpr uint32_t NH = 26;
static void step(uint32_t op, BigInteger * r, S * v) {
    int k = v[0].k > v[1].k ? v[0].k : v[1].k;
    switch (op) {
    case 0: r[0] += r[1]; v[0] = addS(v[0], v[1]); break;
    case 1: r[0] -= r[1]; v[0] = addS(v[0], flip(v[1])); break;
    case 2: r[1] = r[0]; v[1] = v[0]; break;
    case 3: r[0] <<= 33; v[0] = shl(v[0], 33); break;
    case 4: r[0] >>= 35; v[0] = shr(v[0], 35); break;
    case 5: r[0] &= r[1]; v[0] = fromTwo(v[0].neg && v[1].neg, two(v[0]) & two(v[1]), k); break;
    case 6: r[0] |= r[1]; v[0] = fromTwo(v[0].neg || v[1].neg, two(v[0]) | two(v[1]), k); break;
    case 7: r[0] ^= r[1]; v[0] = fromTwo(v[0].neg != v[1].neg, two(v[0]) ^ two(v[1]), k); break;
    case 8: r[0].notSelf(); v[0] = addS(flip(v[0]), konst(-1)); break;
    case 9: { r[0].notBits(); U s = v[0].mag; for (int i = 1; i < 32 * v[0].k; i *= 2) s |= s >> i; v[0].mag ^= s; v[0] = norm(v[0]); break; }
    case 10: r[0].negate(); v[0] = flip(v[0]); break;
    case 11: ++r[0]; v[0] = addS(v[0], konst(1)); break;
    case 12: r[0]--; v[0] = addS(v[0], konst(-1)); break;
    case 13: (void)r[0].get2sComplement(1); (void)r[1].get2sComplement(0); break;
    case 14: std::swap(r[0], r[1]); { S t = v[0]; v[0] = v[1]; v[1] = t; } break;
    case 15: r[0] *= 65536; v[0] = shl(v[0], 16); break;
    case 16: r[0] /= 65536; v[0].mag >>= 16; v[0] = norm(v[0]); break;
    case 17: r[0] %= 4294967296ll; v[0].mag = low(v[0].mag, 1); v[0].k = 1; v[0] = norm(v[0]); break;
    case 18: r[0].assign("-f00000000000000000", 16); v[0] = konst(-((I)0xf << 68)); break;
    case 19: r[0].fromBinary("\0\0\0\0\0\0\0\0\0\xf0\xff", 11); v[0] = konst(-((I)1 << 76)); break;
    case 20: r[0].abs(); v[0].neg = false; break;
    case 21: r[0] -= r[0]; v[0] = S(); break;
    case 22: r[0] = std::move(r[1]); r[1] = -1; v[0] = v[1]; v[1] = konst(-1); break;
    case 23: r[0] = 0x100000000; v[0] = konst((I)0x100000000); break;
    case 24: r[0] <<= 64; v[0] = shl(v[0], 64); break;
    default: r[0] >>= 1; v[0] = shr(v[0], 1); break;
    }
}
extern "C" void unit_history() {
    int n = sym_param("n", 1), m = sym_param("m", 1), L = sym_param("steps", 2);
    Num a, b;
    mkLen(a, "a", n, pick("mode", NMODES));
    mkLen(b, "b", m, FRESH);
    BigInteger r[2] = {a.b, b.b}; S v[2] = {{a.neg, a.mag, n}, {b.neg, b.mag, m}};
    a.b = BigInteger(); b.b = BigInteger();
    for (int i = 0; i < L; ++i) {
        uint32_t lo = i ? sym_param("lo2", 0) : sym_param("lo", 0), hi = i ? sym_param("hi2", NH) : sym_param("hi", NH), op = lo + sym_choice("op", hi - lo);
        if (sym_param("both", 0) && pick("dir", 2)) { std::swap(r[0], r[1]); S t = v[0]; v[0] = v[1]; v[1] = t; }
        step(op, r, v);
    }
    for (int i = 0; i < 2; ++i) {
        int k = v[i].k + 1 < KW ? v[i].k + 1 : KW;
        expectSM(r[i], v[i].neg, v[i].mag, k, i ? "other-value" : "value");
        U t = two(v[i]); uint32_t d = 0;
        for (int j = 0; j < k; ++j) d |= r[i].get2sComplement(j) ^ (uint32_t)(t >> (32 * j));
        sym_assert(d == 0, i ? "other-blocks" : "blocks");
    }
    expectKept(a, "copy-unchanged"); expectKept(b, "copy-unchanged");
}

// Fractions and their text.
#define VH_LIMBS 6
#include "vh.h"
#include "Fraction.h"
#include "algorithm.h"
using pgbn::experimental::Fraction;
static uint32_t errors; // reports of a division by zero, in place of ending the program
static void quiet() { pgbn::Status::registe(pgbn::ErrCode::DIVBY0, "zero", [] { ++errors; }); }
static std::string digits(uint64_t v) { char b[24]; int n = 24; do { b[--n] = (char)('0' + v % 10); v /= 10; } while (v); return std::string(b + n, 24 - n); }
// an integer in -hi..hi, the sign as a case split
static int32_t val(const char * name, uint32_t hi, bool nonzero, bool pos = false) {
    uint32_t c = pos ? 1 : pick((std::string("s") + name).c_str(), nonzero ? 2 : 3); // 0 negative, 1 positive, 2 zero
    if (c == 2) return 0;
    int32_t m = (int32_t)sym_range(name, 1, hi);
    return c ? m : -m;
}
// a number of one limb whose sign is a case split, made of the value's limb
static BigInteger big(int32_t v, bool neg) { uint32_t l[1] = {(uint32_t)(neg ? -v : v)}; return build(l, 1, neg, 0, 0); }
static BigInteger num(int32_t v) { return v == 0 ? BigInteger() : big(v, v < 0); }
static int64_t get(const BigInteger & b) { // small values only
    BigInteger m = b.absoluted();
    sym_assert(m.get2sComplement(1) == 0, "small");
    int64_t v = m.get2sComplement(0);
    return b.isNegative() ? -v : v;
}
static uint32_t ugcd(uint32_t a, uint32_t b) { while (a) { uint32_t t = b % a; b = a; a = t; } return b; }
// (-1)^neg * n/d in lowest terms
static void expect(const Fraction & f, bool neg, uint32_t n, uint32_t d, const char * id) {
    BigInteger a = f.getNum().absoluted(), b = f.getDen().absoluted();
    sym_assert(a.get2sComplement(1) == 0 && b.get2sComplement(1) == 0, "small");
    uint32_t p = a.get2sComplement(0), q = b.get2sComplement(0);
    sym_observe("num", p); sym_observe("den", q);
    sym_assert(q != 0, id);
    sym_assert(p <= n && q <= d, id); // what divides the inputs
    if (p > n || q > d) return;
    if (n) sym_assert((f.getNum().isNegative() != f.getDen().isNegative()) == neg, id);
    sym_assert(p * d == n * q, id);
    sym_assert(ugcd(p, q) == 1, id);
}
static void expect(const Fraction & f, int64_t n, int64_t d, const char * id) { expect(f, (n < 0) != (d < 0), (uint32_t)(n < 0 ? -n : n), (uint32_t)(d < 0 ? -d : d), id); }
// a + b of signed magnitudes
static void addS(bool an, uint32_t a, bool bn, uint32_t b, bool & n, uint32_t & r) {
    if (an == bn) { n = an; r = a + b; }
    else if (a >= b) { n = an; r = a - b; }
    else { n = bn; r = b - a; }
}
extern "C" void unit_gcd() {
    uint32_t hi = sym_param("hi", 31);
    int32_t a = val("a", hi, false, true), b = val("b", hi, false, true);
    if (pick("zero", 3) == 1) a = 0; else if (pick("zero", 3) == 2) b = 0;
    BigInteger x = num(a), y = num(b);
    int64_t g = get(pgbn::algo::gcd(x, y));
    sym_assert(g == ugcd(a, b), "gcd");
    sym_assert(get(x) == a && get(y) == b, "operands-unchanged");
}
extern "C" void unit_make() {
    uint32_t hi = sym_param("hi", 31);
    int32_t n = val("n", hi, false), d = val("d", hi, true);
    quiet();
    bool ok = pick("ok", 2);
    switch (pick("how", 5)) {
    case 0: { Fraction f(num(n), num(d), &ok); sym_assert(ok, "flag"); expect(f, n, d, "made"); break; }
    case 1: { Fraction f(num(n)); expect(f, n, 1, "integer"); f.setDen(num(d), &ok); sym_assert(ok, "flag"); expect(f, n, d, "denominator-set"); break; }
    case 2: { Fraction f(BigInteger(1), num(d)); f.setNum(num(n)); expect(f, n, d, "numerator-set"); break; }
    case 3: { Fraction f(num(n), num(d)), r; if (n) { r = f.reciprocal(&ok); sym_assert(ok, "flag"); expect(r, d, n, "reciprocal"); } else { r = f.reciprocal(&ok); sym_assert(!ok, "refused"); }
              expect(f, n, d, "source"); break; }
    default: { Fraction f(num(n), BigInteger(), &ok); sym_assert(!ok && f.getDen() != 0, "refused"); Fraction g(num(n), num(d)); g.setDen(BigInteger(), &ok); sym_assert(!ok, "refused"); expect(g, n, d, "kept"); break; }
    }
}
extern "C" void unit_arith() {
    uint32_t hi = sym_param("hi", 7);
    int32_t a = val("a", hi, false), b = val("b", hi, true), c = val("c", hi, false), d = val("d", hi, true);
    auto m = [](int32_t v) { return (uint32_t)(v < 0 ? -v : v); };
    uint32_t A = m(a), B = m(b), C = m(c), D = m(d), r = 0; bool an = (a < 0) != (b < 0), cn = (c < 0) != (d < 0), n = false;
    quiet();
    Fraction x(num(a), num(b)), y(num(c), num(d)), z;
    switch (pick("op", 5)) {
    case 0: z = x + y; addS(an, A * D, cn, C * B, n, r); expect(z, n, r, B * D, "sum"); break;
    case 1: z = x - y; addS(an, A * D, !cn, C * B, n, r); expect(z, n, r, B * D, "difference"); break;
    case 2: z = x * y; expect(z, an != cn, A * C, B * D, "product"); break;
    case 3: z = x / y; if (c) expect(z, an != cn, A * D, B * C, "quotient"); else sym_assert(errors == 1 && z.getDen() != 0, "refused"); break;
    default: x = x + x; expect(x, an, 2 * A, B, "aliased"); break;
    }
    expect(y, c, d, "operand");
}
// long numerators and denominators: fixed co-prime pairs times an unknown common factor
extern "C" void unit_long() {
    static const char * P[][2] = {{"340282366920938463463374607431768211456", "12157665459056928801"}, {"18446744073709551629", "4294967296"}, {"1000000007", "79228162514264337593543950336"}, {"7", "36893488147419103232"}};
    uint32_t p = pick("pair", 4), hi = sym_param("hi", 255);
    BigInteger a(P[p][0]), b(P[p][1]);
    int32_t g = val("g", hi, true);
    bool neg = pick("neg", 2);
    if (neg) a.negate();
    BigInteger G = num(g);
    Fraction f(a * G, b * G);
    BigInteger n = f.getNum(), d = f.getDen();
    if (g < 0) { n.negate(); d.negate(); }
    sym_assert(n == a && d == b, "reduced");
    Fraction h = f - f; sym_assert(h.getNum() == 0 && (h.getDen() == 1 || h.getDen() == -1), "zero");
}
static void sameText(const std::string & got, const std::string & want, const char * id);
// long whole numbers and long reciprocals, any limbs: n/+-1 and +-1/n
extern "C" void unit_whole() {
    Num a, b; mkLen(a, "a", sym_param("n", 2), FRESH); mkLen(b, "b", sym_param("m", 1), FRESH);
    bool dn = pick("dneg", 2), en = pick("eneg", 2);
    auto one = [](bool neg) { return BigInteger(neg ? -1 : 1); };
    BigInteger p = a.b, q = b.b;
    if (dn) p.negate();
    if (en) q.negate();
    quiet();
    Fraction x(a.b, one(dn)), y(b.b, one(en)), z;
    auto whole = [&](const Fraction & f, const BigInteger & w, const char * id) {
        BigInteger n = f.getNum(), d = f.getDen();
        sym_assert(d == 1 || d == -1, id);
        if (d == -1) n.negate();
        sym_assert(n == w, id);
    };
    switch (pick("op", 6)) {
    case 0: whole(x + y, p + q, "sum"); break;
    case 1: whole(x - y, p - q, "difference"); break;
    case 2: whole(x * y, p * q, "product"); break;
    case 3: whole(x / Fraction(one(en)), en ? -p : p, "quotient"); break;
    case 4: if (a.n) { z = x.reciprocal(); sym_assert(z.getDen() == a.b && z.getNum() == one(dn), "reciprocal"); whole(z.reciprocal(), p, "twice"); } break;
    default: if (a.n) { z = Fraction(one(dn)) / Fraction(a.b); BigInteger n = z.getNum(), d = z.getDen(); sym_assert(n == 1 || n == -1, "one-over"); sym_assert((n == 1) != dn ? d == a.b : d == -a.b, "one-over"); } break;
    }
    whole(x, p, "operand"); whole(y, q, "operand");
}
extern "C" void unit_wholetext() {
    Num a; mkLen(a, "a", sym_param("n", 2), FRESH);
    static const int R[] = {2, 4, 16, 32}; const int radix = R[pick("radix", 4)];
    bool dn = pick("dneg", 2), up = pick("over", 2);
    BigInteger m = a.b.absoluted();
    const std::string sign = a.neg != dn && a.n ? "-" : "";
    if (up) { if (a.n == 0) return; Fraction f(BigInteger(dn ? -1 : 1), a.b); sameText(f.toString(radix), sign + "1/" + m.toString(radix), "one-over"); }
    else { Fraction f(a.b, BigInteger(dn ? -1 : 1)); sameText(f.toString(radix), sign + m.toString(radix) + "/1", "whole"); }
}
static void sameText(const std::string & got, const std::string & want, const char * id) {
    sym_assert(got.size() == want.size(), id);
    uint32_t d = 0;
    for (size_t i = 0; i < want.size(); ++i) d |= (unsigned char)(got[i] ^ want[i]);
    sym_assert(d == 0, id);
}
extern "C" void unit_text() {
    uint32_t hi = sym_param("hi", 31);
    int32_t n = val("n", hi, false), d = val("d", hi, true);
    Fraction f(num(n), num(d));
    uint32_t u = n < 0 ? -n : n, v = d < 0 ? -d : d, g = ugcd(u, v);
    sameText(f.toString(), (((n < 0) != (d < 0)) && n ? "-" : "") + digits(u / g) + "/" + digits(v / g), "fraction-text");
    // other radices
    auto text = [](uint32_t v, uint32_t radix) { std::string s; do { s.insert(s.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[sym_concretize(v % radix)]); v /= radix; } while (sym_concretize(v != 0)); return s; };
    static const int R[] = {2, 3, 7, 8, 11, 16, 35, 36};
    if (uint32_t r = pick("radix", 9)) sameText(f.toString(R[r - 1]), ((n < 0) != (d < 0) && n ? "-" : "") + text(u / g, R[r - 1]) + "/" + text(v / g, R[r - 1]), "fraction-text");
}
extern "C" void unit_decimal() {
    uint32_t hi = sym_param("hi", 31), k = pick("k", sym_param("maxk", 4) + 1);
    int32_t n = val("n", hi, false);
    int32_t d = sym_param("den", 0) ? (int32_t)sym_param("den", 0) : (int32_t)(1 + sym_choice("den", sym_param("dens", 12)));
    bool dneg = pick("dneg", 2);
    Fraction f(num(n), num(dneg ? -d : d));
    std::string got = f.toDecimal((int)k);
    uint32_t u = n < 0 ? -n : n; uint64_t p = 1;
    for (uint32_t i = 0; i < k; ++i) p *= 10;
    uint32_t whole = u / d; uint64_t frac = (uint64_t)(u % d) * p / d;
    std::string want = digits(whole);
    if (k) { std::string fd = digits(frac); want += "." + std::string(k - fd.size(), '0') + fd; }
    bool neg = n != 0 && (n < 0) != dneg, zero = whole == 0 && frac == 0;
    if (neg && zero) { if (got.size() && got[0] == '-') got = got.substr(1); } // the sign of a value truncated to zero is not specified
    else if (neg) want = "-" + want;
    sameText(got, want, "decimal");
}

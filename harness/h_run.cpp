// Long numbers: up to two dozen limbs, most of them all ones or all zeros so that carries, borrows and searches run far,
// with arbitrary limbs at the low end, at one place in between and at the top. The reference works limb by limb.
#define VH_LIMBS 1
#include "vh.h"
constexpr int MAXL = 40;
struct Big { uint32_t l[MAXL] = {}; int n = 0; bool neg = false; BigInteger b, keep; };

static void mkRun(Big & x, const char * name, int n) {
    x.n = n;
    uint32_t pat = pick("pat", 3);
    for (int i = 0; i < n; ++i) x.l[i] = pat == 0 || (pat == 2 && i % 2) ? 0xffffffff : 0;
    x.l[0] = sym_u32(name);
    int p = n > 3 ? (int[]){n / 2, n - 2, 1}[pick("at", 3)] : 0;
    if (n > 3) x.l[p] = sym_u32(name);
    x.l[n - 1] = sym_u32(name);
    sym_assume(x.l[n - 1] != 0);
    x.neg = sym_choice("neg", 2);
    x.b = build(x.l, n, x.neg, 1, 1);
    if (pick("cached", 2)) { vhCached = true; if (!x.neg) x.b.negate(); (void)x.b.get2sComplement(0); if (!x.neg) x.b.negate(); x.keep = x.b; }
}
// reference on magnitudes
static void addL(uint32_t * r, const uint32_t * a, const uint32_t * b, int n) {
    uint64_t c = 0;
    for (int i = 0; i < n; ++i) { c += (uint64_t)a[i] + b[i]; r[i] = (uint32_t)c; c = sym_concretize(c >> 32); }
}
static bool subL(uint32_t * r, const uint32_t * a, const uint32_t * b, int n) { // r = a - b, returns the borrow
    uint32_t c = 0;
    for (int i = 0; i < n; ++i) { uint64_t t = (uint64_t)a[i] - b[i] - c; r[i] = (uint32_t)t; c = (uint32_t)sym_concretize((t >> 32) != 0); }
    return c;
}
static void negL(uint32_t * r, const uint32_t * a, int n) { // two's complement
    bool seen = false;
    for (int i = 0; i < n; ++i) { r[i] = seen ? ~a[i] : 0 - a[i]; if (!seen && sym_concretize(a[i] != 0)) seen = true; }
}
static void expectL(const BigInteger & b, bool neg, const uint32_t * m, int k, const char * id) {
    BigInteger p = b.absoluted();
    uint32_t d = 0, any = 0, l[MAXL];
    for (int i = 0; i < k; ++i) { uint32_t g = l[i] = p.get2sComplement(i); sym_observe("mag", g); d |= g ^ m[i]; any |= m[i]; }
    sym_assert(d == 0, id);
    bool z = any == 0;
    sym_assert(b.isZero() == z && b.isNegative() == (!z && neg) && b.isPositive() == (!z && !neg), id);
    expectTwos(b, l, k);
}
static void expectTwosL(const BigInteger & b, const uint32_t * t, int k, const char * id) {
    uint32_t d = 0;
    for (int i = 0; i < k; ++i) { uint32_t g = b.get2sComplement(i); sym_observe("limb", g); d |= g ^ t[i]; }
    sym_assert(d == 0, id);
}
static void kept(const Big & x) { if (vhCached) expectL(x.keep, x.neg, x.l, x.n + 1, "copy-unchanged"); }

extern "C" void unit_addrun() {
    int n = sym_param("n", 12), m = sym_param("m", 1), k = (n > m ? n : m) + 1;
    uint32_t op = pick("op", 5);
    Big a; mkRun(a, "a", n);
    Big b; b.n = m;
    if (op < 3) { for (int i = 0; i < m; ++i) b.l[i] = i == 0 || i == m - 1 ? sym_u32("b") : 0xffffffff; sym_assume(b.l[m - 1] != 0); b.neg = sym_choice("neg", 2); b.b = build(b.l, m, b.neg, 1, 0); }
    else { b.l[0] = 1; }
    switch (op) {
    case 0: a.b += b.b; break;
    case 1: a.b -= b.b; b.neg = !b.neg; break;
    case 2: { BigInteger t = b.b + a.b; a.b = t; break; }
    case 3: ++a.b; b.neg = false; break;
    default: --a.b; b.neg = true; break;
    }
    uint32_t r[MAXL] = {}; bool neg = a.neg;
    if (a.neg == b.neg) addL(r, a.l, b.l, k);
    else if (subL(r, a.l, b.l, k)) { subL(r, b.l, a.l, k); neg = b.neg; }
    expectL(a.b, neg, r, k, "value");
    kept(a);
}
extern "C" void unit_bitrun() {
    int n = sym_param("n", 12), m = sym_param("m", 1), k = (n > m ? n : m) + 1;
    uint32_t op = pick("op", 5);
    Big a; mkRun(a, "a", n);
    uint32_t ta[MAXL] = {}, tb[MAXL] = {}, t[MAXL] = {};
    for (int i = 0; i < n; ++i) ta[i] = a.l[i];
    if (a.neg) negL(ta, a.l, k);
    if (op < 3) {
        Big b;
        for (int i = 0; i < m; ++i) b.l[i] = i == 0 || i == m - 1 ? sym_u32("b") : 0;
        sym_assume(b.l[m - 1] != 0); b.neg = sym_choice("neg", 2); b.b = build(b.l, m, b.neg, 1, 0);
        for (int i = 0; i < m; ++i) tb[i] = b.l[i];
        if (b.neg) negL(tb, b.l, k);
        if (op == 0) a.b &= b.b; else if (op == 1) a.b |= b.b; else a.b ^= b.b;
        for (int i = 0; i < k; ++i) t[i] = op == 0 ? ta[i] & tb[i] : op == 1 ? ta[i] | tb[i] : ta[i] ^ tb[i];
        expectTwosL(b.b, tb, k, "operand-unchanged");
    } else if (op == 3) { a.b.notSelf(); for (int i = 0; i < k; ++i) t[i] = ~ta[i]; }
    else { BigInteger c = ~a.b; expectTwosL(a.b, ta, k, "operand-unchanged"); a.b = c; for (int i = 0; i < k; ++i) t[i] = ~ta[i]; }
    expectTwosL(a.b, t, k, "value");
    kept(a);
}
extern "C" void unit_shiftrun() {
    int n = sym_param("n", 12);
    static const uint32_t D[] = {1, 31, 32, 33, 64, 95, 128, 127, 129, 160, 256, 352, 383, 384, 400};
    uint32_t s = D[pick("dist", sizeof D / sizeof *D)], w = s / 32, bits = s % 32;
    Big a; mkRun(a, "a", n);
    uint32_t r[MAXL] = {}; bool left = pick("left", 2);
    if (left) {
        for (int i = 0; i < n; ++i) { r[i + w] |= a.l[i] << bits; if (bits) r[i + w + 1] |= a.l[i] >> (32 - bits); }
        a.b <<= s;
        expectL(a.b, a.neg, r, n + w + 1, "value");
    } else {
        // floor: for negative numbers -(ceil of the magnitude)
        uint32_t lost = 0;
        for (int i = 0; i < (int)w && i < n; ++i) lost |= a.l[i];
        if (bits && (int)w < n) lost |= a.l[w] << (32 - bits);
        for (int i = w; i < n; ++i) { r[i - w] |= a.l[i] >> bits; if (bits && i > (int)w) r[i - w - 1] |= a.l[i] << (32 - bits); }
        if (a.neg && sym_concretize(lost != 0)) { uint32_t one[MAXL] = {1}; addL(r, r, one, n + 1); }
        a.b >>= s;
        expectL(a.b, a.neg, r, n + 1, "value");
    }
    kept(a);
}
extern "C" void unit_cmprun() {
    int n = sym_param("n", 12), m = sym_param("m", 12), k = n > m ? n : m;
    Big a, b; mkRun(a, "a", n);
    for (int i = 0; i < m; ++i) b.l[i] = i < n ? a.l[i] : 0; // the same but for one limb
    int at = (int[]){0, m / 2, m - 1}[pick("diff", 3)];
    b.l[at] = sym_u32("b"); sym_assume(b.l[m - 1] != 0);
    b.neg = sym_choice("neg", 2); b.n = m; b.b = build(b.l, m, b.neg, 0, 2);
    uint32_t t[MAXL]; bool less = subL(t, a.l, b.l, k), more = subL(t, b.l, a.l, k);
    int w = less ? -1 : more ? 1 : 0;
    if (a.neg != b.neg) w = a.neg ? -1 : 1; else if (a.neg) w = -w;
    int c = a.b.cmp(b.b);
    sym_assert((c > 0) - (c < 0) == w, "cmp");
    c = b.b.cmp(a.b);
    sym_assert((c > 0) - (c < 0) == -w, "cmp-reversed");
    sym_assert((a.b == b.b) == (w == 0) && (a.b < b.b) == (w < 0) && (a.b >= b.b) == (w >= 0), "operators");
}
extern "C" void unit_exportrun() {
    int n = sym_param("n", 12);
    Big a; mkRun(a, "a", n);
    unsigned char x[4 * MAXL] = {}, y[4 * MAXL] = {};
    uint64_t len = a.b.copyMagDataTo(x, sizeof x);
    sym_observe("len", len);
    uint32_t d = 0;
    for (int i = 0; i < 4 * n; ++i) d |= x[i] ^ (uint8_t)(a.l[i / 4] >> (8 * (i % 4)));
    sym_assert(d == 0, "bytes");
    uint32_t t = a.l[n - 1];
    sym_assert(len == 4 * (uint64_t)(n - 1) + (t >> 24 ? 4 : t >> 16 ? 3 : t >> 8 ? 2 : 1), "length");
    // back in as a positive number, and the two's complement as well
    for (int i = 0; i <= n; ++i) for (int j = 0; j < 4; ++j) y[4 * i + j] = (uint8_t)(a.b.get2sComplement(i) >> (8 * j));
    if (pick("big", 2)) { for (int i = 0, j = 4 * n + 3; i < j; ++i, --j) { unsigned char c = y[i]; y[i] = y[j]; y[j] = c; } a.b.fromBinary(y, 4 * n + 4, false); }
    else a.b.fromBinary(y, 4 * n + 4, true);
    expectL(a.b, a.neg, a.l, n + 1, "imported");
    kept(a);
}
// multiplication and division by a fixed number of one limb
extern "C" void unit_mulrun() {
    int n = sym_param("n", 12);
    static const uint32_t C[] = {2, 0x10000, 0xffffffff, 7};
    uint32_t c = C[pick("fac", 4)];
    Big a; mkRun(a, "a", n);
    uint32_t r[MAXL] = {}; uint64_t t = 0;
    for (int i = 0; i <= n; ++i) { t += (uint64_t)a.l[i] * c; r[i] = (uint32_t)t; t >>= 32; }
    BigInteger o((int64_t)c); bool neg = a.neg;
    switch (pick("op", 3)) {
    case 0: a.b *= o; break;
    case 1: a.b *= -(int64_t)c; neg = !neg; break;
    default: { BigInteger x = o * a.b; expectL(a.b, a.neg, a.l, n, "operand-unchanged"); a.b = x; break; }
    }
    vhCached = vhCached && (c == 2 || c == 0x10000);
    expectL(a.b, neg, r, n + 1, "value");
}
extern "C" void unit_predrun() {
    int n = sym_param("n", 8);
    Big a; mkRun(a, "a", n);
    const BigInteger & x = a.b;
    bool rest = false; for (int i = 1; i < n; ++i) rest |= a.l[i] != 0;
    bool one = !rest && a.l[0] == 1;
    sym_assert(!x.isZero() && x.isOne() == (one && !a.neg) && x.isNegOne() == (one && a.neg), "isOne");
    sym_assert(x.isPositive() == !a.neg && x.isNegative() == a.neg, "sign");
    sym_assert(x.isEven() == ((a.l[0] & 1) == 0) && x.isOdd() == ((a.l[0] & 1) == 1), "isOdd");
    sym_assert((x == 1) == (one && !a.neg) && (x == -1) == (one && a.neg) && x.cmp(0) == (a.neg ? -1 : 1), "cmp");
    BigInteger p = x * BigInteger(1), q = BigInteger(-1) * x;
    expectL(p, a.neg, a.l, n + 1, "times-one"); expectL(q, !a.neg, a.l, n + 1, "times-minus-one");
    kept(a);
}
extern "C" void unit_intrun() { // longer than 64 bits: every conversion refuses
    int n = sym_param("n", 8);
    Big a; mkRun(a, "a", n);
    bool ok = true; int64_t i = 5; uint64_t u = 5;
    (void)a.b.getInt64(&ok); sym_assert(!ok, "int64-refused");
    ok = true; (void)a.b.getUInt64(&ok); sym_assert(!ok, "uint64-refused");
    sym_assert(!a.b.tryGetInt64(i) && !a.b.tryGetUInt64(u), "try-refused");
    uint64_t low = a.l[0] | (uint64_t)a.l[1] << 32;
    sym_assert(a.b.as<unsigned long>() == (a.neg ? 0 - low : low), "low-bits");
    kept(a);
}
extern "C" void unit_notbitsrun() {
    int n = sym_param("n", 8);
    Big a; mkRun(a, "a", n);
    uint32_t hb = (uint32_t[]){31, 0, 17}[pick("bits", 3)], r[MAXL] = {};
    sym_assume((a.l[n - 1] >> hb) == 1);
    for (int i = 0; i < n; ++i) r[i] = ~a.l[i];
    r[n - 1] &= 0xffffffffu >> (31 - hb);
    a.b.notBits();
    expectL(a.b, a.neg, r, n + 1, "value");
    uint32_t o[MAXL] = {1}, s[MAXL] = {}; addL(s, r, o, n + 1);
    bool neg = a.neg; if (neg) { uint32_t any = 0; for (int i = 0; i < n; ++i) any |= r[i]; if (any == 0) neg = false; else subL(s, r, o, n + 1); }
    a.b += 1;
    expectL(a.b, neg, s, n + 1, "then-increment");
    kept(a);
}
// division of long numbers: fixed limbs but for one (low, so that most digits of the quotient are fixed too)
extern "C" void unit_divrun() {
    int n = sym_param("n", 8), m = sym_param("m", 1), at = sym_param("at", 0), bits = sym_param("bits", 32);
    uint32_t pat = pick("pat", 4), dp = pick("dpat", 4);
    auto fill = [](uint32_t * l, int n, uint32_t p) { for (int i = 0; i < n; ++i) l[i] = p == 0 ? 0xffffffffu : p == 1 ? (i == n - 1 ? 1 : 0) : p == 2 ? (i == n - 1 ? 0x80000000u : i % 2 ? 0 : 0xffffffffu) : 0x9e3779b9u * (i + 3) ^ 0x7f4a7c15u >> (i % 5); };
    Big a, d; a.n = n; d.n = m;
    fill(a.l, n, pat); fill(d.l, m, dp);
    uint32_t s = sym_u32("a"); if (bits < 32) s = a.l[at] ^ (s & ((1u << bits) - 1));
    a.l[at] = s;
    sym_assume(a.l[n - 1] != 0);
    a.neg = pick("neg", 2); d.neg = pick("dneg", 2);
    a.b = build(a.l, n, a.neg, 1, 1); d.b = build(d.l, m, d.neg, 0, 0);
    BigInteger q, r;
    if (pick("op", 2)) { q = a.b / d.b; r = a.b % d.b; expectL(a.b, a.neg, a.l, n + 1, "operand-unchanged"); }
    else { q = a.b; q /= d.b; r = a.b; r %= d.b; }
    expectL(d.b, d.neg, d.l, m + 1, "divisor-unchanged");
    uint32_t ql[MAXL] = {}, rl[MAXL] = {}, p[2 * MAXL] = {};
    int nq = n - m + 1 > 0 ? n - m + 1 : 1;
    { BigInteger x = q.absoluted(), y = r.absoluted();
      for (int i = 0; i < nq; ++i) { ql[i] = x.get2sComplement(i); sym_observe("q", ql[i]); }
      for (int i = 0; i < m; ++i) { rl[i] = y.get2sComplement(i); sym_observe("r", rl[i]); }
      sym_assert((x.get2sComplement(nq) | x.get2sComplement(nq + 1) | y.get2sComplement(m) | y.get2sComplement(m + 1)) == 0, "size"); }
    for (int i = 0; i < m; ++i) p[i] = rl[i];
    for (int i = 0; i < nq; ++i) { // p += q_i * d << 32 i
        uint64_t c = 0;
        for (int j = 0; i + j < n + 2; ++j) { uint64_t t = (j < m ? (uint64_t)ql[i] * d.l[j] : 0) + p[i + j] + c; p[i + j] = (uint32_t)t; c = t >> 32; }
    }
    uint32_t diff = 0; for (int i = 0; i < n + 2; ++i) diff |= p[i] ^ (i < n ? a.l[i] : 0);
    sym_assert(diff == 0, "a=q*b+r");
    uint32_t t[MAXL]; sym_assert(subL(t, rl, d.l, m), "r<b");
    uint32_t qa = 0, ra = 0; for (int i = 0; i < nq; ++i) qa |= ql[i]; for (int i = 0; i < m; ++i) ra |= rl[i];
    sym_assert(q.isZero() == (qa == 0) && q.isNegative() == (qa != 0 && a.neg != d.neg), "sign-q");
    sym_assert(r.isZero() == (ra == 0) && r.isNegative() == (ra != 0 && a.neg), "sign-r");
}

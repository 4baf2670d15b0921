// Text import and export.
#define VH_LIMBS 8
#include "vh.h"
using namespace pgbn;
static bool statusIs(Enum code) { return Status::getInstance()->getInfo() == Status::getInfo(code); }
static const unsigned DPB[] = {0, 0, 31, 20, 15, 13, 12, 11, 10, 10, 9, 9, 8, 8, 8, 8, 7, 7, 7, 7, 7, 7, 7, 7, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6};
static unsigned char digitChar(uint32_t d, uint32_t upper) { return (unsigned char)(d + '0' + (uint32_t)(d >= 10) * (39 - 32 * upper)); }

// sign, leading zeros, len digits valid in the radix, either case, into a number in any earlier state
extern "C" void unit_parse() {
    uint32_t radix = sym_param("radix", 10), len = sym_param("len", 9), lim = sym_param("limbs", 4);
    uint64_t pat = sym_param("pat", 0x3147d19b);
    char buf[160];
    uint32_t n = 0, sign = pick("sign", 3), zeros = pick("zeros", 2) * 2;
    if (sign) buf[n++] = sign == 1 ? '+' : '-';
    for (uint32_t i = 0; i < zeros; ++i) buf[n++] = '0';
    U want = 0;
    uint32_t k = 0;
    for (uint32_t i = 0; i < len; ++i) {
        // above radix 10 the pattern parameter says which positions hold letters (and of which case)
        bool letter = radix > 10 && pat >> (2 * (i % 16)) & 1;
        uint32_t up = pat >> (2 * (i % 16) + 1) & 1;
        uint32_t d = letter ? sym_range("digit", 10, radix - 1) : sym_range("digit", i > 0 ? 0 : 1, (radix < 10 ? radix : 10) - 1);
        if (letter) { buf[n++] = (char)(d - 10 + (up ? 'A' : 'a')); want = want * radix + d; continue; }
        buf[n++] = (char)(d + '0');
        want = want * radix + d;
    }
    std::unique_ptr<char[]> exact(new char[n]); // reads behind the string are out of bounds
    for (uint32_t i = 0; i < n; ++i) exact[i] = buf[i];
    Num old; BigInteger b; bool ok = false;
    StringArg s(exact.get(), n);
    uint32_t how = pick("how", 3);
    if (how == 0) b = BigInteger(s, radix, &ok);
    else {
        mkLen(old, "old", how == 1 ? 3 : 1, how == 1 ? SHARED_TAIL_CACHED : CACHED);
        BigInteger & r = old.b.assign(s, radix, &ok);
        sym_assert(&r == &old.b, "returns-self");
        b = old.b;
        expectKept(old, "copy-unchanged");
    }
    sym_assert(ok, "ok-flag");
    sym_assert(statusIs(ErrCode::SUCCESS), "status");
    expectSM(b, sign == 2, want, lim, "value");
}
// several conversion blocks in every radix: fixed digits but for one of any value (the first, the last, or one next to a block boundary)
extern "C" void unit_fewdigits() {
    uint32_t radix = sym_param("lo", 2) + pick("radix", sym_param("count", 35)), blocks = sym_param("blocks", 2), fill = pick("fill", 3), fd = fill == 0 ? 0 : fill == 1 ? radix - 1 : 1;
    uint32_t len = DPB[radix] * blocks + pick("more", 2);
    U want = 0;
    uint32_t which = pick("which", 5);
    std::unique_ptr<char[]> s(new char[len]);
    const uint32_t pos = which == 0 ? 0 : which == 1 ? len - 1 : len - (DPB[radix] + which - 3);
    for (uint32_t i = 0; i < len; ++i) {
        uint32_t d = i == pos ? (uint32_t)sym_range("digit", i == 0, radix - 1) : i == 0 && !fd ? 1 : fd;
        s[i] = (char)digitChar(d, i & 1);
        want = want * radix + d;
    }
    bool ok = false;
    BigInteger b(StringArg(s.get(), len), radix, &ok);
    sym_assert(ok, "ok-flag");
    expectSM(b, false, want, blocks + 2, "value");
}
// sign and zeros only
extern "C" void unit_parsezero() {
    uint32_t radix = 2 + pick("radix", 35), zeros = 1 + pick("zeros", 12), sign = pick("sign", 3);
    std::string s = sign == 0 ? "" : sign == 1 ? "+" : "-";
    s.append(zeros, '0');
    Num old; bool ok = false;
    mkLen(old, "old", 2, pick("mode", 2) ? SHARED_TAIL_CACHED : CACHED);
    Status::getInstance()->operator=(ErrCode::ARITHMETIC_OVERFLOW);
    old.b.assign(s, radix, &ok);
    sym_assert(ok, "ok-flag");
    sym_assert(statusIs(ErrCode::SUCCESS), "status");
    expectMag(old.b, 0, 3, "value");
    expect2s(old.b, 0, 3, "value");
    expectKept(old, "copy-unchanged");
    old.b += 7;
    expectMag(old.b, 7, 3, "then-add");
}
static int valOf(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static void reference(const unsigned char * s, uint32_t n, uint32_t radix, const std::string & tail, Num & old, uint32_t lim) {
    // reference reading of the whole text
    bool ok = true, signBad = false, empty = false, digitBad = false, neg = false;
    uint32_t i = 0;
    if (n && (s[0] == '+' || s[0] == '-')) { neg = s[0] == '-'; i = 1; }
    if (i == n) empty = true;
    U want = 0;
    for (; i < n; ++i) {
        if (s[i] == '+' || s[i] == '-') { signBad = true; continue; }
        int v = valOf(s[i]);
        if (v >= (int)radix) { digitBad = true; continue; }
        want = want * radix + v;
    }
    ok = !signBad && !empty && !digitBad;
    std::unique_ptr<char[]> exact(new char[n ? n : 1]);
    for (uint32_t j = 0; j < n; ++j) exact[j] = (char)s[j];
    bool flag = !ok;
    Status::getInstance()->operator=(ok ? ErrCode::ARITHMETIC_OVERFLOW : ErrCode::SUCCESS);
    old.b.assign(StringArg(exact.get(), n), radix, &flag);
    sym_assert(flag == ok, "ok-flag");
    if (ok) {
        sym_assert(statusIs(ErrCode::SUCCESS), "status");
        expectSM(old.b, neg, want, lim, "value");
    } else {
        bool st = (signBad && statusIs(ErrCode::NUMBER_STRING_SIG_INVALID)) || (empty && statusIs(ErrCode::NUMBER_STRING_EMPTY)) || (digitBad && statusIs(ErrCode::NUMBER_STRING_PARSE2NUM_ERROR));
        sym_assert(st, "status");
        expectMag(old.b, old.v, 3, "unchanged");
        // without a flag the behaviour is the same
        old.b.assign(StringArg(exact.get(), n), radix);
        expectMag(old.b, old.v, 3, "unchanged-without-flag");
        BigInteger fresh(StringArg(exact.get(), n), radix, &flag);
        sym_assert(!flag, "ok-flag-constructor");
    }
    expectKept(old, "copy-unchanged");
}
// any bytes at all
extern "C" void unit_anybytes() {
    static const int R[] = {2, 8, 10, 11, 16, 36};
    uint32_t n = sym_param("len", 2), radix = R[pick("r", 6)];
    unsigned char s[8];
    for (uint32_t i = 0; i < n; ++i) s[i] = sym_u8("c");
    Num old; mkLen(old, "old", 1, pick("mode", 2) ? SHARED_TAIL_CACHED : CACHED);
    reference(s, n, radix, "", old, 2);
}
// one arbitrary byte anywhere in a long numeral
extern "C" void unit_onebad() {
    uint32_t radix = sym_param("radix", 10), n = sym_param("len", 20);
    unsigned char s[160];
    uint32_t pos = pick("pos", n);
    for (uint32_t i = 0; i < n; ++i) s[i] = i == pos ? sym_u8("c") : (unsigned char)digitChar(1 % radix, 0);
    Num old; mkLen(old, "old", 1, CACHED);
    reference(s, n, radix, "", old, 7);
}
extern "C" void unit_badradix() {
    int radix = (int)sym_u32("radix");
    sym_assume(radix < 2 || radix > 36);
    Num old; mkLen(old, "old", 2, SHARED_TAIL_CACHED);
    bool ok = true;
    old.b.assign(pick("s", 2) ? StringArg("12") : StringArg(""), radix, &ok);
    sym_assert(!ok, "ok-flag");
    sym_assert(statusIs(ErrCode::RADIX_INVALID), "status");
    expectMag(old.b, old.v, 3, "unchanged");
    expectKept(old, "copy-unchanged");
}

static void checkText(const std::string & t, uint32_t radix, bool neg, U mag, const char * id) {
    uint32_t n = (uint32_t)t.size(), i = 0;
    sym_observe("length", n);
    for (uint32_t j = 0; j < n; ++j) sym_observe("c", (unsigned char)t[j]);
    if (mag == 0) { sym_assert(n == 1 && t[0] == '0', "zero"); return; }
    if (neg) { sym_assert(n > 1 && t[0] == '-', "sign"); i = 1; }
    sym_assert(n > i, "not-empty");
    sym_assert(t[i] != '0', "no-leading-zero");
    U v = 0;
    for (; i < n; ++i) {
        unsigned c = (unsigned char)t[i];
        uint32_t dig = (c - '0') & 0xff, let = (c - 'a' + 10) & 0xff;
        uint32_t d = c >= 'a' ? let : dig;
        sym_assert(d < radix && (c >= 'a' ? let >= 10 : dig < 10), "digit");
        v = v * radix + d;
    }
    sym_assert(v == mag, id);
}
// numbers of n limbs
extern "C" void unit_tostr() {
    uint32_t radix = sym_param("radix", 16);
    int N = sym_param("n", 1);
    Num a;
    mk(a, "a", 0, N, pick("mode", 2) ? SHARED_TAIL_CACHED : FRESH);
    std::string t = a.b.toString(radix);
    checkText(t, radix, a.neg, a.mag, "value");
    expectMag(a.b, a.v, N + 1, "operand-unchanged");
    expectKept(a, "copy-unchanged");
}
// the value is given by its digits, all of them symbolic: the text must be exactly these digits
extern "C" void unit_tostrdigits() {
    uint32_t radix = sym_param("radix", 10), len = sym_param("len", 9);
    uint64_t v = 0; uint32_t d[70];
    for (uint32_t i = 0; i < len; ++i) {
        // cut off below 2^(32n) by a limit on the first two digits
        uint32_t top = i == 0 ? sym_param("top", radix - 1) : i == 1 ? sym_param("top2", radix - 1) : radix - 1;
        d[i] = sym_range("digit", i > 0 ? 0 : 1, top);
        v = v * radix + d[i];
    }
    uint32_t l[2] = {(uint32_t)v, (uint32_t)(v >> 32)};
    bool neg = pick("neg", 2);
    int n = sym_param("n", 1);
    sym_assume((l[1] != 0) == (n == 2));
    BigInteger b = build(l, n, neg, 0, 0);
    std::string t = b.toString(radix);
    sym_assert(t.size() == len + neg, "length");
    if (neg) sym_assert(t[0] == '-', "sign");
    uint32_t bad = 0;
    for (uint32_t i = 0; i < len; ++i) {
        sym_observe("c", (unsigned char)t[i + neg]);
        bad |= (unsigned char)t[i + neg] ^ digitChar(d[i], 0);
    }
    sym_assert(bad == 0, "digits");
}
// several blocks: a fixed leading part and a lower block in a window around every power of the radix, so that the
// padding of the lower block takes every length
extern "C" void unit_tostrpad() {
    uint32_t radix = sym_param("radix", 10), blocks = sym_param("blocks", 2);
    static const uint64_t HI[] = {1, 35, 0x123456789abcdefull};
    uint64_t dp = 0, br = 1;
    while (br <= ~0ull / radix) { br *= radix; ++dp; } // largest power of the radix below 2^64
    U v = HI[pick("hi", 3)];
    if (blocks == 3) v = v * br + (pick("mid", 2) ? 0 : br - 1);
    uint64_t p = 1; uint32_t e = sym_choice("e", dp);
    for (uint32_t i = 0; i < e; ++i) p *= radix;
    uint32_t w = sym_u8("w");
    sym_assume(w < radix * 2u);
    uint64_t low = p - (pick("below", 2) ? 1 : 0) ;
    v = v * br + low;
    U mag = v;
    bool neg = pick("neg", 2);
    uint32_t l[KW]; int n = 0;
    for (int i = 0; i < KW; ++i) { l[i] = (uint32_t)(mag >> (32 * i)); if (l[i]) n = i + 1; }
    (void)w;
    BigInteger b = build(l, n, neg, 0, 0);
    checkText(b.toString(radix), radix, neg, mag, "value");
}

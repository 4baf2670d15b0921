// The C interface against the C++ operations it wraps.
#include "vh.h"
#include "pgbn.h"
using namespace pgbn;
using H = pgbn_BigInteger_t *;

static BigInteger twin(const Num & a) { return a.n ? build(a.l, a.n, a.neg, 0, 0) : BigInteger(); }
// the handle is made of the value's own bytes, through the C interface
static H handle(const Num & a) {
    unsigned char b[4 * KW] = {};
    for (int i = 0; i < a.n; ++i) for (int j = 0; j < 4; ++j) b[4 * i + j] = (unsigned char)(a.l[i] >> (8 * j));
    H h = pgbn_BigInteger_CreateWithBin(4 * a.n + 1, b, true);
    if (a.neg) pgbn_BigInteger_Negate(h);
    return h;
}
static void same(H h, const BigInteger & b, int k, const char * id) {
    uint32_t d = (uint32_t)(pgbn_BigInteger_IsNegative(h) != b.isNegative()) | (uint32_t)(pgbn_BigInteger_IsZero(h) != b.isZero()) | (uint32_t)(pgbn_BigInteger_IsPositive(h) != b.isPositive());
    for (int i = 0; i < k; ++i) {
        uint32_t g = pgbn_BigInteger_Get2sComplementBlock(h, i), w = b.get2sComplement(i);
        sym_observe("limb", g);
        d |= g ^ w;
    }
    sym_assert(d == 0, id);
}
constexpr uint32_t NC = 27;
extern "C" void unit_ops() {
    int n = sym_param("n", 2), m = sym_param("m", 1);
    uint32_t lo = sym_param("lo", 0), op = lo + sym_choice("op", sym_param("hi", NC) - lo);
    Num a, b;
    mkLen(a, "a", n, FRESH);
    bool self = op < 8 && sym_param("self", 0);
    if (op >= 2 && op <= 4 && !self) { // products and quotients of unknowns are C02's and C04's
        static const uint32_t L[] = {0x89abcdef, 3, 0x80000001};
        if (!m) return;
        b.n = m; b.neg = true; for (int i = 0; i < m; ++i) b.l[i] = L[i];
        b.mag = composeMag(b.l, m); b.v = -(I)b.mag;
    } else mkLen(b, "b", m, FRESH);
    H x = handle(a), y = handle(b), keep = pgbn_BigInteger_CreateWithCopying(x);
    BigInteger p = twin(a), q = twin(b), p0 = twin(a), q0 = twin(b);
    int k = n + m + 3;
    int64_t i = op >= 8 && op <= 15 ? (op >= 10 && op <= 12 ? -1000000007 : mkI64("i").i) : 0;
    H o = self ? x : y; const BigInteger & oc = self ? p0 : q;
    switch (op) {
    case 0: pgbn_BigInteger_AddAssign(x, o); p += oc; break;
    case 1: pgbn_BigInteger_SubAssign(x, o); p -= oc; break;
    case 2: pgbn_BigInteger_MulAssign(x, o); p *= oc; break;
    case 3: if (self && !n) return; pgbn_BigInteger_DivAssign(x, o); p /= oc; break;
    case 4: if (self && !n) return; pgbn_BigInteger_ModAssign(x, o); p %= oc; break;
    case 5: pgbn_BigInteger_AndAssign(x, o); p &= oc; break;
    case 6: pgbn_BigInteger_OrAssign(x, o); p |= oc; break;
    case 7: pgbn_BigInteger_XorAssign(x, o); p ^= oc; break;
    case 8: pgbn_BigInteger_AddAssignWithI64(x, i); p += i; break;
    case 9: pgbn_BigInteger_SubAssignWithI64(x, i); p -= i; break;
    case 10: pgbn_BigInteger_MulAssignWithI64(x, i); p *= i; break;
    case 11: pgbn_BigInteger_DivAssignWithI64(x, i); p /= i; break;
    case 12: pgbn_BigInteger_ModAssignWithI64(x, i); p %= i; break;
    case 13: pgbn_BigInteger_AndAssignWithI64(x, i); p &= i; break;
    case 14: pgbn_BigInteger_OrAssignWithI64(x, i); p |= i; break;
    case 15: pgbn_BigInteger_XorAssignWithI64(x, i); p ^= i; break;
    case 16: { uint32_t s = sym_choice("s", 70); pgbn_BigInteger_SHLAssignWithI64(x, s); p <<= s; break; }
    case 17: { uint32_t s = sym_choice("s", 70); pgbn_BigInteger_SHRAssignWithI64(x, s); p >>= s; break; }
    case 18: pgbn_BigInteger_Negate(x); p.negate(); break;
    case 19: pgbn_BigInteger_AbsSelf(x); p.abs(); break;
    case 20: pgbn_BigInteger_NotSelfBits(x); p.notBits(); break;
    case 21: pgbn_BigInteger_NotSelf(x); p.notSelf(); break;
    case 22: pgbn_BigInteger_Inc(x); ++p; break;
    case 23: pgbn_BigInteger_Dec(x); --p; break;
    case 24: pgbn_BigInteger_Copy(x, y); p = q; break;
    case 25: { Mi z = mkI64("z"); pgbn_BigInteger_AssignWithI64(x, z.i); p = z.i; H t = pgbn_BigInteger_CreateWithI64(z.i); same(t, p, 3, "created"); pgbn_BigInteger_Destroy(t); break; }
    default: { H t = pgbn_BigInteger_Create(); same(t, BigInteger(), 2, "created"); pgbn_BigInteger_Copy(t, x); pgbn_BigInteger_Inc(t); pgbn_BigInteger_Destroy(t); break; }
    }
    same(x, p, k, "result");
    same(keep, p0, n + 1, "copy-unchanged");
    if (!self) same(y, q0, m + 1, "operand-unchanged");
    pgbn_BigInteger_Destroy(x); same(keep, p0, n + 1, "copy-outlives");
    pgbn_BigInteger_Destroy(y); pgbn_BigInteger_Destroy(keep);
}
extern "C" void unit_queries() {
    int n = sym_param("n", 2), m = sym_param("m", 2);
    Num a, b;
    mkLen(a, "a", n, FRESH); mkLen(b, "b", m, FRESH);
    H x = handle(a), y = handle(b);
    BigInteger p = twin(a), q = twin(b);
    auto sgn = [](int c) { return c < 0 ? -1 : c > 0; };
    uint32_t lo = sym_param("lo", 0), hi = sym_param("hi", 9);
    switch (lo + sym_choice("q", hi - lo)) {
    case 0: sym_assert(pgbn_BigInteger_IsOne(x) == p.isOne() && pgbn_BigInteger_IsNegOne(x) == p.isNegOne() && pgbn_BigInteger_IsEven(x) == p.isEven() && pgbn_BigInteger_IsOdd(x) == p.isOdd(), "predicates"); break;
    case 1: sym_assert(sgn(pgbn_BigInteger_Cmp(x, y)) == sgn(p.cmp(q)), "compare"); break;
    case 2: { Mi z = mkI64("z"); sym_assert(sgn(pgbn_BigInteger_CmpWithI64(x, z.i)) == sgn(p.cmp(z.i)), "compare-int"); break; }
    case 3: { bool f = !sym_bool("f"), g = f; int64_t r = pgbn_BigInteger_GetInt64WithChecking(x, &f), w = p.getInt64(&g);
              sym_assert(f == g && r == w, "int64"); sym_assert(pgbn_BigInteger_GetInt64(x) == w, "int64");
              sym_assert(f == (a.v >= (I)INT64_MIN && a.v <= (I)INT64_MAX), "int64-fits"); break; }
    case 4: { bool f = !sym_bool("f"), g = f; uint64_t r = pgbn_BigInteger_GetUInt64WithChecking(x, &f), w = p.getUInt64(&g);
              sym_assert(f == g, "uint64-fits"); sym_assert(r == w, "uint64"); sym_assert(pgbn_BigInteger_GetUInt64(x) == w, "uint64");
              std::string info = pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance());
              sym_assert(info == Status::getInfo(f ? ErrCode::SUCCESS : ErrCode::ARITHMETIC_OVERFLOW), "uint64-status"); break; }
    case 5: { unsigned char u[4 * KW] = {}, v[4 * KW] = {}; uint32_t len = sym_choice("max", 4 * n + 2);
              uint64_t r = pgbn_BigInteger_GetMagData(x, u, len), w = p.copyMagDataTo(v, len); uint32_t d = 0;
              for (unsigned i = 0; i < sizeof u; ++i) d |= u[i] ^ v[i];
              sym_assert(r == w && d == 0, "bytes"); break; }
    case 6: { uint32_t i = sym_choice("i", n + 3); sym_assert(pgbn_BigInteger_Get2sComplementBlock(x, i) == p.get2sComplement(i), "block"); break; }
    case 7: { pgbn_String_t * s = pgbn_BigInteger_ToString(x, 16); std::string w = p.toString(16);
              sym_assert(pgbn_String_Length(s) == w.size(), "text-length"); uint32_t d = 0;
              const char * c = pgbn_String_CStr(s); for (size_t i = 0; i < w.size(); ++i) d |= (unsigned char)(c[i] ^ w[i]);
              sym_assert(d == 0 && c[w.size()] == 0, "text"); pgbn_String_Destroy(s); break; }
    default: { H z = pgbn_BigInteger_CreateWithCopying(x); pgbn_BigInteger_Copy(z, y); same(z, q, m + 1, "copied"); same(x, p, n + 1, "source"); pgbn_BigInteger_Destroy(z); break; }
    }
    same(x, p, n + 1, "unchanged"); same(y, q, m + 1, "operand-unchanged");
    pgbn_BigInteger_Destroy(x); pgbn_BigInteger_Destroy(y);
}
// text and bytes in, any content
extern "C" void unit_import() {
    Num a; mkLen(a, "a", 1, FRESH);
    H x = handle(a); BigInteger p = twin(a);
    if (pick("what", 2)) {
        unsigned char s[8]; uint32_t n = sym_param("len", 5); bool little = pick("little", 2);
        for (uint32_t i = 0; i < n; ++i) s[i] = sym_u8("byte");
        pgbn_BigInteger_AssignWithBin(x, s, n, little); p.fromBinary(s, n, little);
        H t = pgbn_BigInteger_CreateWithBin(n, s, little);
        same(t, p, 3, "created"); pgbn_BigInteger_Destroy(t);
        same(x, p, 3, "bytes");
    } else {
        int radix = pick("radix", 2) ? 16 : (int)sym_choice("r", 40) - 1; char s[8]; uint32_t n = sym_param("slen", 1);
        for (uint32_t i = 0; i < n; ++i) { s[i] = (char)sym_u8("c"); sym_assume(s[i] != 0); }
        s[n] = 0;
        bool ok = false, r = pgbn_BigInteger_AssignWithStr(x, s, radix);
        p.assign(StringArg(s, n), radix, &ok);
        sym_assert(r == ok, "accepted");
        same(x, p, 2, "text");
        H t = pgbn_BigInteger_CreateWithStr(s, radix);
        sym_assert((t != nullptr) == ok, "created-iff-valid");
        if (t) { same(t, p, 2, "created"); pgbn_BigInteger_Destroy(t); }
    }
    pgbn_BigInteger_Destroy(x);
}
// status and string objects, in any order of use
static int calls; static void * seen;
static void hook(void * p) { ++calls; seen = p; }
extern "C" void unit_status() {
    uint32_t first = pick("first", 4); int tag = 0;
    // whatever comes first in the program must work
    if (first == 0) { pgbn_Status_t * s = pgbn_Status_Create(); sym_assert(std::string(pgbn_Status_GetInfo(s)) == Status::getInfo(0), "fresh"); pgbn_Status_Destroy(s); }
    else if (first == 1) { pgbn_Status_RegisterWithCallback(ErrCode::NUMBER_STRING_EMPTY, "mine", hook, &tag); }
    else if (first == 2) { sym_assert(std::string(pgbn_Status_GetInfoByErrno(ErrCode::DIVBY0)) == "[PGBN-Status: Fault]Divide By Zero", "info-by-number"); }
    pgbn_Status_t * g = pgbn_Status_GetGlobalInstance();
    if (first != 1) pgbn_Status_RegisterWithCallback(ErrCode::NUMBER_STRING_EMPTY, "mine", hook, &tag);
    uint32_t code = 1000 + sym_choice("code", 3);
    pgbn_Status_Register(code, "no callback");
    bool ok = true; BigInteger b; b.assign("", 10, &ok);
    sym_assert(!ok && calls == 1 && seen == &tag, "callback-once");
    sym_assert(std::string(pgbn_Status_GetInfo(g)) == "mine", "info");
    pgbn_Status_SetErrno(g, code);
    sym_assert(calls == 1 && std::string(pgbn_Status_GetInfo(g)) == "no callback" && Status::getInstance()->getInfo() == "no callback", "set");
    pgbn_Status_t * own = pgbn_Status_CreateWithErrno(ErrCode::NUMBER_STRING_EMPTY);
    sym_assert(calls == 2 && std::string(pgbn_Status_GetInfo(own)) == "mine", "own-object");
    pgbn_Status_SetErrno(own, ErrCode::SUCCESS);
    sym_assert(std::string(pgbn_Status_GetInfo(g)) == "no callback", "separate-objects");
    pgbn_Status_Destroy(own);
    sym_assert(std::string(pgbn_Status_GetInfoByErrno(4242)) == "<ERROR_INFO>", "unknown-number");
    const char * text[] = {"", "a", "longer than the small string buffer"}; uint32_t t = pick("text", 3);
    pgbn_String_t * s = pgbn_String_Create(text[t]);
    sym_assert(pgbn_String_Length(s) == strlen(text[t]) && strcmp(pgbn_String_CStr(s), text[t]) == 0, "string");
    pgbn_String_Destroy(s);
    // registering again replaces text and callback
    pgbn_Status_Register(ErrCode::NUMBER_STRING_EMPTY, "other");
    b.assign("", 10, &ok);
    sym_assert(calls == 2 && std::string(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance())) == "other", "replaced");
}

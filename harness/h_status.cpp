// Errors: the code that is set, the callback that is called, registrations.
#define VH_LIMBS 4
#include "vh.h"
#include "pgbn.h"
#include "Fraction.h"
#include <string.h>
using namespace pgbn;
using pgbn::experimental::Fraction;

static uint32_t log_[40], logged;
static void note(uint32_t code) { if (logged < 40) log_[logged] = code; ++logged; }
static void watchAll() { for (SizeType i = 0; i < errInfoCount; ++i) { uint32_t c = errInfos[i].code; Status::registe(c, "info " + std::to_string(c), note, c); } }
static uint32_t count(uint32_t code) { uint32_t n = 0; for (uint32_t i = 0; i < logged; ++i) n += log_[i] == code; return n; }
// exactly the given error was reported, and it is what the thread's status says now
static void reported(uint32_t code, const char * id) {
    uint32_t errors = 0;
    for (uint32_t i = 0; i < logged; ++i) errors += log_[i] != ErrCode::SUCCESS;
    if (code == ErrCode::SUCCESS) { sym_assert(errors == 0, id); return; }
    sym_assert(errors == 1 && count(code) == 1, id);
    sym_assert(Status::getInstance()->getInfo() == "info " + std::to_string(code), id);
    sym_assert(&Status::getInstance()->getInfo() == &Status::getInfo(code), id);
}
static void before() { // an earlier outcome
    switch (pick("before", 3)) {
    case 1: PGBN_GetGlobalStatus() = ErrCode::SUCCESS; break;
    case 2: PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN; break;
    }
    logged = 0;
}
// numerals: any bytes
extern "C" void unit_text() {
    watchAll(); before();
    uint32_t n = sym_param("len", 2); char s[8];
    int radix = (int[]){10, 2, 36, 16, 1, 37, 0, -1, 255}[pick("radix", 9)];
    for (uint32_t i = 0; i < n; ++i) s[i] = (char)sym_u8("c");
    bool sign = false, badsign = false, badchar = false;
    for (uint32_t i = 0; i < n; ++i) {
        char c = s[i]; uint32_t d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
        if (c == '+' || c == '-') { if (i) badsign = true; else sign = true; }
        else if ((int)d >= radix) badchar = true;
    }
    uint32_t want = radix < 2 || radix > 36 ? ErrCode::RADIX_INVALID : n == 0 ? ErrCode::NUMBER_STRING_EMPTY : badsign ? ErrCode::NUMBER_STRING_SIG_INVALID
        : sign && n == 1 ? ErrCode::NUMBER_STRING_EMPTY : badchar ? ErrCode::NUMBER_STRING_PARSE2NUM_ERROR : ErrCode::SUCCESS;
    bool ok = want != 0;
    switch (pick("how", 3)) {
    case 0: { BigInteger b(7); b.assign(StringArg(s, n), radix, &ok); break; }
    case 1: { BigInteger b(StringArg(s, n), radix, &ok); break; }
    default: { BigInteger b; b.assign(StringArg(s, n), radix, nullptr); ok = want == 0; break; }
    }
    sym_assert(ok == (want == 0), "flag");
    reported(want, "numeral");
    if (want == 0) sym_assert(Status::getInstance()->getInfo() == "info 0" && count(0) > 0, "success-reported");
}
// conversions to machine integers
extern "C" void unit_convert() {
    watchAll(); before();
    Num a; mkLen(a, "a", sym_param("n", 2), pick("mode", NMODES));
    bool uns = pick("unsigned", 2), ok = pick("ok", 2);
    bool fits = uns ? a.v >= 0 && a.v <= (I)UINT64_MAX : a.v >= (I)INT64_MIN && a.v <= (I)INT64_MAX;
    switch (pick("how", 3)) {
    case 0: if (uns) a.b.getUInt64(&ok); else a.b.getInt64(&ok); break;
    case 1: if (uns) { uint64_t r; ok = a.b.tryGetUInt64(r); } else { int64_t r; ok = a.b.tryGetInt64(r); } break;
    default: if (uns) a.b.getUInt64(); else a.b.getInt64(); ok = fits; break;
    }
    sym_assert(ok == fits, "flag");
    if (fits) reported(0, "no-error"); else reported(ErrCode::ARITHMETIC_OVERFLOW, "overflow");
    if (fits) sym_assert(Status::getInstance()->getInfo() == "info 0", "success");
}
// division by zero, whatever the dividend and the form of the operation
static void divide(uint32_t how, BigInteger & x, int64_t i) {
    static BigInteger zero;
    switch (how) {
    case 0: x /= zero; break;
    case 1: x %= zero; break;
    case 2: x /= (int64_t)0; break;
    case 3: x %= (int64_t)0; break;
    case 4: (void)(x / zero); break;
    case 5: (void)(x % zero); break;
    case 6: (void)(x / (int64_t)0); break;
    case 7: (void)(x % (int64_t)0); break;
    case 8: (void)(i / zero); break;
    case 9: (void)(i % zero); break;
    case 10: { BigInteger z = x - x; x /= z; break; }
    case 11: { BigInteger z = x; z.negate(); z += x; x %= z; break; }
    case 12: { pgbn_BigInteger_t * p = pgbn_BigInteger_CreateWithI64(i), * q = pgbn_BigInteger_Create(); pgbn_BigInteger_DivAssign(p, q); break; }
    case 13: { pgbn_BigInteger_t * p = pgbn_BigInteger_CreateWithI64(i), * q = pgbn_BigInteger_Create(); pgbn_BigInteger_ModAssign(p, q); break; }
    case 14: { pgbn_BigInteger_t * p = pgbn_BigInteger_CreateWithI64(i); pgbn_BigInteger_DivAssignWithI64(p, 0); break; }
    case 15: { pgbn_BigInteger_t * p = pgbn_BigInteger_CreateWithI64(i); pgbn_BigInteger_ModAssignWithI64(p, 0); break; }
    }
}
constexpr uint32_t NDIV = 16;
extern "C" void unit_divzero() {
    watchAll(); before();
    uint32_t lo = sym_param("lo", 0), how = lo + sym_choice("op", sym_param("hi", NDIV) - lo);
    BigInteger x; int64_t i = 0;
    Num a; 
    if (how == 8 || how == 9 || how >= 12) i = mkI64("i").i;
    else { mkLen(a, "a", pick("len", 3), pick("mode", NMODES)); x = a.b; }
    logged = 0;
    divide(how, x, i);
    reported(ErrCode::DIVBY0, "division-by-zero");
    // the next operation is unaffected
    BigInteger y(6); logged = 0; y /= 2;
    sym_assert(y == 3, "still-works"); reported(0, "still-works");
}
// the default reaction ends the program with the code as its exit status
extern "C" void unit_divexit() {
    uint32_t how = pick("how", NDIV); bool first = pick("first", 2);
    if (!first) { BigInteger b("12"); b += 1; }
    BigInteger x((int64_t)(pick("zero", 2) ? 0 : 1000000));
    sym_expect_exit(ErrCode::DIVBY0);
    divide(how, x, -5);
    sym_fail("exits");
}
// fractions
extern "C" void unit_fraction() {
    watchAll(); before();
    int64_t n = (int64_t)pick("n", 3) - 1;
    bool ok = pick("ok", 2);
    switch (pick("how", 4)) {
    case 0: { Fraction f(BigInteger(n), BigInteger(), &ok); sym_assert(!ok, "flag"); break; }
    case 1: { Fraction f(BigInteger(n), BigInteger(5)); logged = 0; f.setDen(BigInteger(), &ok); sym_assert(!ok, "flag"); break; }
    case 2: { Fraction f(BigInteger(n), BigInteger(-5)), g; logged = 0; f = f / g; break; }
    default: { Fraction f(BigInteger((int64_t)0), BigInteger(-5)); logged = 0; f.reciprocal(&ok); sym_assert(!ok, "flag"); break; }
    }
    reported(ErrCode::DIVBY0, "fraction");
}
// a history of registrations and uses against a plain table
static uint32_t hits[3];
static void hit(uint32_t i) { ++hits[i]; }
static void hit0() { ++hits[0]; }
extern "C" void unit_history() {
    static const uint32_t C[] = {ErrCode::NUMBER_STRING_EMPTY, ErrCode::RADIX_INVALID, 77, 0xfffffffe};
    struct E { bool known; std::string info; int cb; } e[4] = {{true, Status::getInfo(C[0]), -1}, {true, Status::getInfo(C[1]), -1}, {false, "<ERROR_INFO>", -1}, {false, "<ERROR_INFO>", -1}};
    uint32_t steps = sym_param("steps", 3), want[3] = {}; uint32_t nc = sym_param("codes", 3);
    int cur = -1;
    for (uint32_t s = 0; s < steps; ++s) {
        uint32_t c = sym_choice("code", nc), x = sym_choice("do", 5);
        switch (x) {
        case 0: Status::registe(C[c], "plain"); e[c] = {true, "plain", -1}; break;
        case 1: Status::registe(C[c], "bound", hit, 1u); e[c] = {true, "bound", 1}; break;
        case 2: Status::registe(C[c], std::string("two words\0x", 11), hit0); e[c] = {true, std::string("two words\0x", 11), 0}; break;
        case 3: Status::registe(C[c], "lambda", [] { ++hits[2]; }); e[c] = {true, "lambda", 2}; break;
        default: // use
            if (!e[c].known) break;
            if (c == 0) { bool ok = true; BigInteger b; b.assign("-", 10, &ok); sym_assert(!ok, "flag"); }
            else if (c == 1) { bool ok = true; BigInteger b("1", 99, &ok); sym_assert(!ok, "flag"); }
            else PGBN_GetGlobalStatus() = C[c];
            cur = c;
            if (e[c].cb >= 0) ++want[e[c].cb];
            break;
        }
        for (int i = 0; i < 3; ++i) sym_assert(hits[i] == want[i], "callback-calls");
        for (uint32_t i = 0; i < 4; ++i) {
            std::tuple<std::string, Callback> * t = nullptr; bool f = Status::find(C[i], &t);
            sym_assert(f == e[i].known && (t != nullptr) == f, "known");
            sym_assert(Status::getInfo(C[i]) == e[i].info, "info");
        }
        if (cur >= 0) sym_assert(Status::getInstance()->getInfo() == e[cur].info, "current");
    }
    // an object of its own
    if (e[0].known) {
        Status own; own = C[0];
        if (e[0].cb >= 0) ++want[e[0].cb];
        sym_assert(own.getInfo() == e[0].info && (bool)own.getCallback() == (bool)Status::getCallback(C[0]), "own");
        Status copy(std::move(own)); sym_assert(copy.getInfo() == e[0].info, "moved");
        copy.setContext(std::string("ctx")); sym_assert(copy.context<std::string>() == "ctx", "context");
        for (int i = 0; i < 3; ++i) sym_assert(hits[i] == want[i], "callback-calls");
    }
}
// every code the library uses is registered with a text before any use
extern "C" void unit_defaults() {
    static const uint32_t ALL[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
    uint32_t c = ALL[pick("code", 17)];
    if (pick("first", 2)) Status::getInstance();
    std::string s = Status::getInfo(c);
    sym_assert(s != "<ERROR_INFO>" && s.size() > 15 && s.substr(0, 13) == "[PGBN-Status:", "registered");
    if (c == ErrCode::DIVBY0) { sym_expect_exit(1); PGBN_GetGlobalStatus() = c; sym_fail("exits"); }
    else PGBN_GetGlobalStatus() = c;
    sym_assert(Status::getInstance()->getInfo() == s, "set");
}

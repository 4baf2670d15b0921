// The expression evaluator against a small evaluator of its own over the tokens.
#define VH_LIMBS 6
#include "vh.h"
#include "expr.h"
#include "infixExpr/SymbolTable.h"
#include "infixExpr/Token.h"
#include <string.h>
#include <utility>
using namespace pgbn;
using namespace pgbn::infixExpr;
using L = int64_t;

enum Op { OR, XOR, AND, EQ, NE, LT, LE, GT, GE, SHL, SHR, ADD, SUB, MUL, DIV, MOD, POW, NOPS };
static const char * const OPS[] = {"|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%", "**"};
static const int PREC[] = {1, 2, 3, 4, 4, 5, 5, 5, 5, 6, 6, 7, 7, 8, 8, 8, 9};
enum Kind { OPND, BIN, NOT, FACT, LP, RP, QM, COL, COMMA, FUN, END };
struct T { Kind k; int i; L v; };

constexpr L BOUND = (L)1 << 40;
static bool domain; // false once an operation leaves the domain that is specified here
static L need(bool c, L v) { if (!c) domain = false; return v; }
static L fixed(L a) { return sym_param("split", 1) ? (L)sym_concretize(a) : a; } // one path per value: products and quotients of their own are decided elsewhere
static L apply(int op, L a, L b) {
    switch (op) {
    case OR: return a | b; case XOR: return a ^ b; case AND: return a & b;
    case EQ: return a == b; case NE: return a != b; case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b;
    case SHL: if (b < 0 || b > 20 || a > (L)1 << 20 || a < -((L)1 << 20)) return need(false, 0); return a * ((L)1 << sym_concretize(b));
    case SHR: if (b < 0) return need(false, 0); if (b > 60) return a < 0 ? -1 : 0; return a >> (int)sym_concretize(b);
    case ADD: return a + b; case SUB: return a - b;
    case MUL: if (a > BOUND >> 20 || a < -(BOUND >> 20) || b > BOUND >> 20 || b < -(BOUND >> 20)) return need(false, 0); return a * (L)sym_concretize(b);
    case DIV: if (b == 0) return need(false, 0); return fixed(a) / (L)sym_concretize(b);
    case MOD: if (b == 0) return need(false, 0); return fixed(a) % (L)sym_concretize(b);
    default: { // POW
        if (b < 0 || b > 6) return need(false, 0);
        L r = 1; int n = (int)sym_concretize((uint64_t)b); if (n > 1) a = fixed(a);
        for (int i = 0; i < n; ++i) { r *= a; if (r > BOUND || r < -BOUND) return need(false, 0); }
        return r; }
    }
}
static L fact(L a) {
    if (a < 0) return 0;
    if (a > 7) return need(false, 0);
    L r = 1; int n = (int)sym_concretize((uint64_t)a);
    for (int i = 2; i <= n; ++i) r *= i;
    return r;
}
// precedence climbing over the tokens; ok says whether they form an expression
struct Spec {
    const T * t; int p = 0; bool ok = true; bool dead = false; // dead: inside a branch that is not evaluated
    L prim() {
        if (!ok) return 0;
        T x = t[p];
        switch (x.k) {
        case OPND: ++p; return x.v;
        case LP: { ++p; L v = cond(); if (t[p].k != RP) ok = false; else ++p; return v; }
        case FUN: { // a registered function of one argument: 10 * x + 1
            ++p; if (t[p].k != LP) { ok = false; return 0; }
            ++p; if (t[p].k == RP) { ok = false; return 0; }
            L v = cond(); if (t[p].k != RP) ok = false; else ++p;
            return 10 * v + 1; }
        default: ok = false; return 0;
        }
    }
    L post() { L v = prim(); while (ok && t[p].k == FACT) { ++p; v = dead ? 0 : fact(v); } return v; }
    L unary() {
        if (t[p].k == BIN && t[p].i == ADD) { ++p; return unary(); }
        if (t[p].k == BIN && t[p].i == SUB) { ++p; return -unary(); }
        if (t[p].k == NOT) { ++p; return ~unary(); }
        return post();
    }
    L bin(int min) {
        L v = unary();
        while (ok && t[p].k == BIN && PREC[t[p].i] >= min) {
            int op = t[p].i; ++p;
            L w = bin(PREC[op] + 1);
            if (!ok) return 0;
            v = dead ? 0 : apply(op, v, w);
        }
        return v;
    }
    L cond() {
        L c = bin(1);
        if (!ok || t[p].k != QM) return c;
        ++p;
        bool was = dead, take = !was && sym_concretize(c != 0);
        dead = was || !take; L a = cond();
        if (!ok || t[p].k != COL) { ok = false; return 0; }
        ++p;
        dead = was || take; L b = cond();
        dead = was;
        return take ? a : b;
    }
    bool run(L & v) { v = cond(); return ok && t[p].k == END; }
};

static uint32_t errors, lastError;
static void note(uint32_t code) { if (code) { ++errors; lastError = code; } }
static void watchAll() { for (SizeType i = 0; i < errInfoCount; ++i) { uint32_t c = errInfos[i].code; Status::registe(c, "info " + std::to_string(c), note, c); } errors = 0; }
static void constant(const char * name, int64_t v) { SymbolTable::getInstance()->registe(name, SymbolTable::Symbol{BigIntegerImpl(v)}); }
static int fcalls;
static void functions() {
    SymbolTable::getInstance()->registe("f", SymbolTable::Symbol{Func{[](std::vector<Value> & a) -> Value { ++fcalls; Value r(a.at(0)); r.mulAssign(10); r.inc(); return r; }, 1}});
}
// the value of a BigInteger of at most two limbs beyond the sign
static void expectValue(const BigInteger & b, L v, const char * id) {
    bool neg = sym_concretize(v < 0); uint64_t m = neg ? -v : v;
    BigInteger p = b.absoluted();
    uint32_t d = 0;
    for (int i = 0; i < 2; ++i) { uint32_t g = p.get2sComplement(i); sym_observe("limb", g); d |= g ^ (uint32_t)(m >> (32 * i)); }
    sym_assert(d == 0, id);
    sym_assert(b.isNegative() == neg && b.isZero() == (v == 0), id);
}
static bool isParseError(uint32_t c) { return c >= ErrCode::PARSE_INFIXEXPR_SHIFTOP_INVALID && c <= ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH; }
// evaluate and compare; the text need not be zero-terminated
static void check(const char * text, size_t n, bool good, L v) {
    char * exact = new char[n];
    memcpy(exact, text, n);
    StringArg s(exact, n);
    Status own; bool use = pick("status", 2);
    int how = (int)sym_param("how", 0);
    (void)how;
    BigInteger r = expr::eval(s, use ? &own : nullptr);
    delete[] exact;
    if (good) { sym_assert(errors == 0, "no-error"); expectValue(r, v, "value"); }
    else {
        sym_assert(errors > 0 && isParseError(lastError), "error-reported");
        sym_assert(Status::getInstance()->getInfo() == "info " + std::to_string(lastError), "global-status");
        if (use) sym_assert(own.getInfo() == "info " + std::to_string(lastError), "own-status");
        sym_assert(r.isZero(), "zero-on-failure");
    }
}
struct Text {
    char s[1024]; int n = 0; T t[400]; int k = 0;
    void put(const char * p) { while (*p) s[n++] = *p++; }
    void gap() { if (sym_param("blanks", 0)) { static const char W[] = {' ', '\t', '\n', '\r'}; uint32_t c = sym_choice("blank", 3); if (c) s[n++] = W[sym_param("blanks", 0) == 2 ? sym_choice("which", 4) : c - 1]; } }
    void tok(Kind kd, const char * p, int i = 0, L v = 0) { gap(); put(p); t[k++] = T{kd, i, v}; }
    void bin(int op) { tok(BIN, OPS[op], op); }
    void end() { gap(); t[k] = T{END, 0, 0}; }
    void run() {
        end();
        Spec sp{t}; L v = 0; domain = true;
        bool good = sp.run(v);
        if (good) { sym_assume(domain); sym_assume(v < BOUND && v > -BOUND); }
        check(s, n, good, v);
    }
};
static int64_t operand(const char * name, int range) { return (int64_t)sym_range(name, 0, 2 * range) - range; }

static void unaryPrefix(Text & x) { switch (pick("prefix", 4)) { case 1: x.tok(BIN, "-", SUB); break; case 2: x.tok(NOT, "~"); break; case 3: x.tok(BIN, "+", ADD); break; } }
// one operator between two operands of any value, with prefixes and suffixes
extern "C" void unit_two() {
    watchAll();
    int op = pick("op", NOPS);
    bool lin = op <= GE || op == ADD || op == SUB;
    int64_t a, b;
    if (lin) { a = operand("a", 100); b = operand("b", 100); }
    else if (op == SHL || op == SHR) { a = operand("a", 100); b = (int64_t)sym_range("b", 0, 20); }
    else if (op == POW) { a = operand("a", 9); b = (int64_t)sym_range("b", 0, 4); }
    else { a = operand("a", (int)sym_param("range", 12)); b = operand("b", 5); }
    constant("a", a); constant("b", b);
    Text x;
    unaryPrefix(x); x.tok(OPND, "a", 0, a);
    x.bin(op);
    unaryPrefix(x); x.tok(OPND, "b", 0, b);
    x.run();
}
static const char * const N[] = {"a", "b", "c", "d", "e"};
// one operand of any value in a range, the others fixed
static void values(int64_t * v, int n) {
    static const int64_t SET[][5] = {{5, 3, 2, 7, 4}, {-7, 2, 3, -3, 1}, {6, -1, 1, 0, -2}};
    int pos = pick("pos", n), set = pick("set", (int)sym_param("sets", 2)), range = (int)sym_param("range", 20);
    for (int i = 0; i < n; ++i) { v[i] = i == pos ? operand("v", range) : SET[set][i]; constant(N[i], v[i]); }
}
// two operators among three operands, bracketed in any way
extern "C" void unit_three() {
    watchAll();
    int o1 = pick("op1", NOPS), o2 = pick("op2", NOPS), br = pick("brackets", 4);
    int64_t v[3]; values(v, 3);
    Text x;
    if (br == 1 || br == 3) x.tok(LP, "(");
    if (br == 3) x.tok(LP, "(");
    x.tok(OPND, "a", 0, v[0]); x.bin(o1);
    if (br == 2) x.tok(LP, "(");
    x.tok(OPND, "b", 0, v[1]);
    if (br == 1 || br == 3) x.tok(RP, ")");
    x.bin(o2); x.tok(OPND, "c", 0, v[2]);
    if (br == 2 || br == 3) x.tok(RP, ")");
    x.run();
}
// more nodes than the pool of nodes holds at first
extern "C" void unit_many() {
    watchAll();
    int n = pick("operands", 40), form = pick("form", 4);
    static const int CHAIN[] = {ADD, SUB, XOR, ADD, OR, SUB, AND, SUB, ADD};
    int64_t v[3]; values(v, 3);
    Text x;
    for (int i = 0; i < n; ++i) {
        if (form == 2) x.tok(NOT, "~"); else if (form == 3) x.tok(BIN, "-", SUB);
        if (form == 1 && i + 1 < n) x.tok(LP, "(");
        if (form < 2 || i + 1 == n) x.tok(OPND, N[i % 3], 0, v[i % 3]);
        if (form < 2 && i + 1 < n) x.bin(form ? (i % 2 ? ADD : SUB) : CHAIN[i % 9]);
    }
    if (form == 1) for (int i = 0; i + 1 < n; ++i) x.tok(RP, ")");
    x.run();
}
// conditionals
extern "C" void unit_cond() {
    watchAll();
    int shape = pick("shape", 7), o = pick("op", NOPS);
    int64_t v[5]; values(v, 5);
    Text x;
    auto id = [&](int i) { x.tok(OPND, N[i], 0, v[i]); };
    auto q = [&] { x.tok(QM, "?"); };
    auto c = [&] { x.tok(COL, ":"); };
    switch (shape) {
    case 0: id(0); x.bin(o); id(1); q(); id(2); c(); id(3); break;
    case 1: id(0); q(); id(1); x.bin(o); id(2); c(); id(3); break;
    case 2: id(0); q(); id(1); c(); id(2); x.bin(o); id(3); break;
    case 3: id(0); q(); id(1); q(); id(2); c(); id(3); c(); id(4); break;
    case 4: id(0); q(); id(1); c(); id(2); q(); id(3); c(); id(4); break;
    case 5: x.tok(LP, "("); id(0); q(); id(1); c(); id(2); x.tok(RP, ")"); x.bin(o); id(3); break;
    default: id(3); x.bin(o); x.tok(LP, "("); id(0); q(); id(1); c(); id(2); x.tok(RP, ")"); break;
    }
    x.run();
}
// prefix and suffix operators in sequence, next to a binary operator
extern "C" void unit_unary() {
    watchAll();
    int64_t v[2], & a = v[0], & b = v[1]; values(v, 2);
    Text x; int np = pick("prefixes", 4), ns = pick("suffixes", 2), o = pick("op", NOPS + 1), side = pick("side", 2);
    if (o < NOPS && side) { x.tok(OPND, "b", 0, b); x.bin(o); }
    for (int i = 0; i < np; ++i) switch (pick("prefix", 3)) { case 0: x.tok(BIN, "-", SUB); break; case 1: x.tok(NOT, "~"); break; default: x.tok(BIN, "+", ADD); }
    x.tok(OPND, "a", 0, a);
    for (int i = 0; i < ns; ++i) x.tok(FACT, "! ");
    if (o < NOPS && !side) { x.bin(o); x.tok(OPND, "b", 0, b); }
    x.run();
}
// every sequence of tokens: an expression gives its value, anything else is reported
extern "C" void unit_tokens() {
    watchAll(); functions();
    int n = (int)sym_param("n", 3);
    int64_t v = operand("a", 2); constant("a", v);
    Text x; fcalls = 0;
    for (int i = 0; i < n; ++i) {
        switch (pick(i == 0 ? "first" : "token", 17)) {
        case 0: x.tok(OPND, "a ", 0, v); break;
        case 1: x.tok(OPND, "2 ", 0, 2); break;
        case 2: x.tok(LP, "("); break;
        case 3: x.tok(RP, ")"); break;
        case 4: x.tok(FUN, "f "); break;
        case 5: x.tok(COMMA, ","); break;
        case 6: x.bin(SUB); break;
        case 7: x.tok(NOT, "~"); break;
        case 8: x.tok(FACT, "! "); break;
        case 9: x.tok(QM, "?"); break;
        case 10: x.tok(COL, ":"); break;
        case 11: x.bin(EQ); break;
        case 12: x.bin(MUL); x.put(" "); break;
        case 13: x.bin(OR); break;
        case 14: x.bin(LT); x.put(" "); break;
        case 15: x.bin(SHR); x.put(" "); break;
        default: x.bin(POW); break;
        }
    }
    x.run();
}

// ---- literals ------------------------------------------------------------------------------------------------------
// text of a literal with len digits of any value; letters in fixed places and cases
static void finish(const std::string & s, bool good, const U & want, uint32_t code) {
    char * exact = new char[s.size()];
    memcpy(exact, s.data(), s.size());
    BigInteger r = expr::eval(StringArg(exact, s.size()));
    delete[] exact;
    if (good) { sym_assert(errors == 0, "no-error"); expectSM(r, false, want, KW, "value"); }
    else { sym_assert(errors > 0 && (code ? lastError == code : isParseError(lastError)), "error-reported"); sym_assert(r.isZero(), "zero-on-failure"); }
}
extern "C" void unit_literal() {
    watchAll();
    uint32_t radix = sym_param("radix", 10), len = sym_param("len", 4), form = sym_param("form", 0); // 0 decimal, 1 0x, 2 octal, 3 0NNx, 4 0Nx
    uint64_t pat = sym_param("pat", 0x3147d19b);
    std::string s; U want = 0;
    if (form == 1) s = "0x"; else if (form == 2) s = "0";
    else if (form == 3) { s = "0"; s += (char)('0' + radix / 10); s += (char)('0' + radix % 10); s += 'x'; }
    else if (form == 4) { s = "0"; s += (char)('0' + radix); s += 'x'; }
    for (uint32_t i = 0; i < len; ++i) {
        bool letter = radix > 10 && pat >> (2 * (i % 16)) & 1, up = pat >> (2 * (i % 16) + 1) & 1;
        uint32_t d = letter ? sym_range("digit", 10, radix - 1) : sym_range("digit", form == 0 && i == 0, (radix < 10 ? radix : 10) - 1);
        s += letter ? (char)(d - 10 + (up ? 'A' : 'a')) : (char)(d + '0');
        want = want * radix + d;
    }
    switch (pick("context", 3)) {
    case 1: s = " " + s + "\t"; break;
    case 2: s = "(" + s + ")*1"; break;
    }
    finish(s, true, want, 0);
}
// one digit that the radix does not have
extern "C" void unit_baddigit() {
    watchAll();
    uint32_t radix = sym_param("radix", 10), len = sym_param("len", 3), form = sym_param("form", 0);
    std::string s;
    if (form == 1) s = "0x"; else if (form == 2) s = "0";
    else if (form == 3) { s = "0"; s += (char)('0' + radix / 10); s += (char)('0' + radix % 10); s += 'x'; }
    else if (form == 4) { s = "0"; s += (char)('0' + radix); s += 'x'; }
    uint32_t bad = pick("bad", len);
    for (uint32_t i = 0; i < len; ++i) {
        if (i != bad) { s += (char)sym_range("digit", i == 0 ? '1' : '0', '0' + (radix < 10 ? radix : 10) - 1); continue; }
        uint8_t c = sym_u8("bad");
        uint32_t d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 0;
        sym_assume(d >= radix && !(form == 0 && i == 0) && !((form == 2 || form == 0) && c == 'x'));
        s += (char)c;
    }
    finish(s, false, 0, form == 2 && bad == 0 ? 0 : ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR);
}
// every radix that can be written before the x
extern "C" void unit_radixprefix() {
    watchAll();
    uint32_t hi = sym_range("hi", 0, 9), lo = sym_range("lo", 0, 9), two = pick("two", 2);
    hi = sym_concretize(hi); lo = sym_concretize(lo);
    uint32_t r = two ? hi * 10 + lo : lo;
    std::string s = "0";
    if (two) s += (char)('0' + hi);
    s += (char)('0' + lo); s += "x101";
    bool good = r >= 2 && r <= 36;
    finish(s, good, (U)r * r + 1, ErrCode::PARSE_INFIXEXPR_RADIX_INVALID);
}

// ---- arbitrary bytes -----------------------------------------------------------------------------------------------
static bool isD(uint8_t c) { return c >= '0' && c <= '9'; }
static int dig(uint8_t c) { return isD(c) ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : -1; }
static bool isN(uint8_t c) { return c == '_' || dig(c) >= 0; }
// the tokens of a text; false if it has none, real is set where a fraction follows a numeral (not specified here)
static bool lex(const uint8_t * s, int n, T * t, int & k, bool & real, L aval) {
    auto at = [&](int i) -> uint8_t { return i < n ? s[i] : 0; };
    auto put = [&](Kind kd, int i, L v = 0) { t[k++] = T{kd, i, v}; };
    for (int i = 0; i < n;) {
        uint8_t c = s[i], d = at(i + 1);
        if (c == 0 || c == ' ' || c == '\t' || c == '\n' || c == '\r') { ++i; continue; }
        if (isD(c)) {
            int radix = 10;
            if (c == '0') {
                if (d == 'x') { radix = 16; i += 2; }
                else if (isD(d)) {
                    int w = isD(at(i + 2)) ? 2 : 1;
                    if (at(i + 1 + w) == 'x') { radix = w == 2 ? (d - '0') * 10 + (at(i + 2) - '0') : d - '0'; i += w + 2; }
                    else { radix = 8; ++i; }
                } else { put(OPND, 0, 0); ++i; continue; }
            }
            int from = i; L v = 0; bool bad = false;
            while (i < n && dig(s[i]) >= 0) { int x = dig(s[i]); if (x >= radix) bad = true; v = v * radix + x; ++i; }
            if (at(i) == '.') { real = true; return false; }
            if (bad || from == i || radix < 2 || radix > 36) return false;
            put(OPND, 0, v);
            continue;
        }
        if (isN(c)) {
            int from = i;
            while (i < n && isN(s[i])) ++i;
            if (i - from != 1) return false;
            if (c == 'a') put(OPND, 0, aval); else if (c == 'f') put(FUN, 0); else return false;
            continue;
        }
        int len = 1;
        switch (c) {
        case '+': put(BIN, ADD); break; case '-': put(BIN, SUB); break;
        case '*': if (d == '*') { len = 2; put(BIN, POW); } else put(BIN, MUL); break;
        case '/': put(BIN, DIV); break; case '%': put(BIN, MOD); break;
        case '!': if (d == '=') { len = 2; put(BIN, NE); } else put(FACT, 0); break;
        case '&': put(BIN, AND); break; case '|': put(BIN, OR); break; case '^': put(BIN, XOR); break; case '~': put(NOT, 0); break;
        case '>': if (d == '>') { len = 2; put(BIN, SHR); } else if (d == '=') { len = 2; put(BIN, GE); } else put(BIN, GT); break;
        case '<': if (d == '<') { len = 2; put(BIN, SHL); } else if (d == '=') { len = 2; put(BIN, LE); } else put(BIN, LT); break;
        case '=': if (d != '=') return false; len = 2; put(BIN, EQ); break;
        case '(': put(LP, 0); break; case ')': put(RP, 0); break; case ',': put(COMMA, 0); break; case '?': put(QM, 0); break; case ':': put(COL, 0); break;
        default: return false;
        }
        i += len;
    }
    return true;
}
extern "C" void unit_bytes() {
    watchAll(); functions();
    int n = (int)sym_param("len", 2); L a = 3; constant("a", a);
    uint8_t s[16]; T t[17]; int k = 0; bool real = false;
    static const char KEEP[] = "0a(1f-~)!?";
    for (int i = 0; i < n; ++i) {
        uint64_t fix = i == 0 ? sym_param("head", ~0ull) : ~0ull;
        s[i] = fix < sizeof KEEP - 1 ? KEEP[fix] : sym_u8("c");
    }
    // split by the kinds of the bytes first: the text is fixed up to digits, letters and unknown bytes
    bool lexed = lex(s, n, t, k, real, a);
    t[k] = T{END, 0, 0};
    L v = 0; domain = true; bool good = false;
    if (lexed) { Spec sp{t}; good = sp.run(v); if (good) { sym_assume(domain); sym_assume(v < BOUND && v > -BOUND); } }
    if (real) { // terminates in bounds
        Status own; BigInteger r = expr::eval(StringArg((const char *)s, n), &own);
        sym_assert(errors == 0 || isParseError(lastError), "real");
        return;
    }
    check((const char *)s, n, good, v);
}

// ---- registered functions and constants --------------------------------------------------------------------------
static int calls_[2], order_[8], norder; static size_t gotN; static uint32_t gotDiff; static L wantArg[6]; static int wantN;
static Func recorder(int id, int argCount, int64_t result) {
    return Func{[id, result](std::vector<Value> & a) -> Value {
        ++calls_[id]; if (norder < 8) order_[norder++] = id;
        if (id == 0) {
            gotN = a.size();
            for (int i = 0; i < wantN && i < (int)a.size(); ++i) { BigInteger x(std::make_unique<BigIntegerImpl>(a[i])); for (int j = 0; j < 3; ++j) gotDiff |= x.get2sComplement(j) ^ (uint32_t)(wantArg[i] >> (j < 2 ? 32 * j : 63)); }
        }
        return Value(result);
    }, argCount};
}
static void reset() { calls_[0] = calls_[1] = norder = 0; gotN = 99; gotDiff = 0; wantN = 0; }
static void reg(const char * name, Func f) { SymbolTable::getInstance()->registe(name, SymbolTable::Symbol{std::move(f)}); }
extern "C" void unit_call() {
    watchAll(); reset();
    int n = pick("args", 4), decl = pick("declared", 6) - 1;
    int64_t v[3]; for (int i = 0; i < 3; ++i) { uint32_t m = sym_u32("v"); sym_assume(m != 0); v[i] = i == 1 ? -(int64_t)m : (int64_t)m; constant(N[i], v[i]); }
    int64_t res = (int64_t)(int32_t)sym_u32("result");
    reg("g_1", recorder(0, decl, res));
    std::string s = "g_1"; if (pick("gap", 2)) s += " ( "; else s += "(";
    int form = pick("form", 4);
    for (int i = 0; i < n; ++i) {
        if (i) s += i == 1 ? ", " : ",";
        L w = v[i];
        switch (i == 1 ? form : 0) {
        case 0: s += N[i]; break;
        case 1: s += "(b)"; break;
        case 2: s += "-b"; w = -v[1]; break;
        case 3: s += "a == a ? b : c"; break;
        }
        wantArg[wantN++] = w;
    }
    s += ")";
    bool good = decl == -1 || decl == n;
    L want = res;
    if (pick("more", 2)) { s = "~" + s; want = ~res; }
    check(s.data(), s.size(), good, want);
    if (good) { sym_assert(calls_[0] == 1, "called-once"); sym_assert((int)gotN == n && gotDiff == 0, "arguments"); }
    else { sym_assert(calls_[0] == 0, "not-called"); sym_assert(lastError == ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH, "mismatch"); }
}
// calls inside calls, in brackets, in branches that are not taken
extern "C" void unit_nested() {
    watchAll(); reset();
    int64_t a = operand("a", 100), b = operand("b", 100), r0 = operand("r0", 100), r1 = operand("r1", 100);
    constant("a", a); constant("b", b);
    reg("g", recorder(0, -1, r0)); reg("h", recorder(1, 1, r1));
    wantN = 2; L want = r0; int c0 = 1, c1 = 1; std::string s;
    switch (pick("shape", 8)) {
    case 0: s = "g(h(a), b)"; wantArg[0] = r1; wantArg[1] = b; break;
    case 1: s = "g(a, h(b))"; wantArg[0] = a; wantArg[1] = r1; break;
    case 2: s = "h(g(a,b))"; wantArg[0] = a; wantArg[1] = b; want = r1; break;
    case 3: s = "g(a+b,a-b)"; wantArg[0] = a + b; wantArg[1] = a - b; c1 = 0; break;
    case 4: s = "1 ? g(a,b) : h(b)"; wantArg[0] = a; wantArg[1] = b; c1 = 0; break;
    case 5: s = "0 ? g(a,b) : h(b)"; want = r1; c0 = 0; break;
    case 6: s = "g((a),b) + h(a) + h(b)"; wantArg[0] = a; wantArg[1] = b; want = r0 + r1 + r1; c1 = 2; break;
    default: s = "g(a ? a : b, a ? b : a)"; wantArg[0] = a ? a : b; wantArg[1] = a ? b : a; c1 = 0; break;
    }
    check(s.data(), s.size(), true, want);
    sym_assert(calls_[0] == c0 && calls_[1] == c1, "called-once");
    if (c0) sym_assert(gotN == 2 && gotDiff == 0, "arguments");
}
// a name of any bytes: bound, bound again, or unknown
extern "C" void unit_names() {
    watchAll();
    int64_t v[4]; for (auto & x : v) x = operand("v", 100);
    constant("a", 77); constant("a", v[0]); constant("ab", v[1]); constant("_", v[2]); constant("A9", v[3]);
    SymbolTable::getInstance()->registe("zz", SymbolTable::Symbol{});
    int n = (int)sym_param("len", 2);
    char s[4]; int which = -1;
    for (int i = 0; i < n; ++i) {
        uint8_t c = sym_u8("c");
        sym_assume(isN(c) && !(i == 0 && isD(c)));
        s[i] = (char)c;
    }
    if (n == 1) which = s[0] == 'a' ? 0 : s[0] == '_' ? 2 : -1;
    if (n == 2) which = s[0] == 'a' && s[1] == 'b' ? 1 : s[0] == 'A' && s[1] == '9' ? 3 : s[0] == 'z' && s[1] == 'z' ? 4 : -1;
    check(s, n, which >= 0 && which < 4, which >= 0 && which < 4 ? v[which] : 0);
    if (which < 0) sym_assert(lastError == ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED, "undefined");
    if (which == 4) sym_assert(lastError == ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID, "invalid-symbol");
}

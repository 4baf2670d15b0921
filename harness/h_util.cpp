// Message formatting, text stream, symbol table.
#include "fwd.h"
#include "streams/StringReadStream.h"
#include "infixExpr/fwd.h"
#include "infixExpr/SymbolTable.h"
#include "sym.h"
#include <memory>
static uint32_t pick(const char * name, uint32_t n) { uint64_t p = sym_param(name, ~0ull); return p < n ? (uint32_t)p : sym_choice(name, n); }
static std::string digits(uint64_t v) { char b[24]; int n = 24; do { b[--n] = (char)('0' + v % 10); v /= 10; } while (v); return std::string(b + n, 24 - n); }

// arguments of every kind, in the formats the library uses
extern "C" void unit_fmtargs() {
    const char * texts[] = {"", "x", "two words", "{", "100%"};
    std::string text; uint32_t t = pick("text", 5);
    text = texts[t];
    uint32_t k = pick("kind", 9); std::string out, want;
    uint64_t v = k < 5 ? sym_u8("v") : 0;
    switch (k) {
    case 0: out = pgfmt::format("[{0}]", (int32_t)(v - 128)); want = v < 128 ? "-" + digits(128 - v) : digits(v - 128); break;
    case 1: out = pgfmt::format("[{0}]", (uint32_t)v); want = digits(v); break;
    case 2: out = pgfmt::format("[{0}]", (uint64_t)v); want = digits(v); break;
    case 3: out = pgfmt::format("[{0}]", (int64_t)v - 100); want = v < 100 ? "-" + digits(100 - v) : digits(v - 100); break;
    case 4: out = pgfmt::format("[{0}]", (uint8_t)v); want = digits(v); break;
    case 5: out = pgfmt::format("[{0}]", text); want = text; break;
    case 6: out = pgfmt::format("[{0}]", text.c_str()); want = text; break;
    case 7: { bool b = sym_bool("b"); out = pgfmt::format("[{0}]", b); want = b ? "true" : "false"; break; }
    default: { char c = (char)sym_u8("c"); out = pgfmt::format("[{0}]", c); want = std::string(1, c); break; }
    }
    want = "[" + want + "]";
    sym_assert(out.size() == want.size(), "length");
    uint32_t d = 0;
    for (size_t i = 0; i < want.size(); ++i) d |= (unsigned char)(out[i] ^ want[i]);
    sym_assert(d == 0, "text");
}
// a dozen arguments, two references to any of them or beyond, one with a width, in both functions
extern "C" void unit_fmtmany() {
    uint64_t v[12]; for (auto & x : v) { x = sym_u8("v"); sym_assume(x > 9 && x < 100); }
    uint32_t i = pick("i", 14), j = pick("j", 14), wide = pick("wide", 2);
    auto text = [&](uint32_t k, bool w) { return k < 12 ? (w ? std::string(3, ' ') : std::string()) + digits(v[k]) : std::string(); };
    const bool same = i == j; // the width belongs to the argument
    std::string f = "<{" + std::to_string(i) + (wide ? ":5" : "") + "}|{" + std::to_string(j) + "}>";
    std::string want = "<" + text(i, wide) + "|" + text(j, wide && same) + ">";
    std::string out = pgfmt::format(f, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]), res = "kept ";
    pgfmt::formatAppend(res, f, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
    sym_assert(out.size() == want.size() && res.size() == 5 + want.size(), "length");
    uint32_t d = 0;
    for (size_t k = 0; k < want.size(); ++k) d |= (unsigned char)(out[k] ^ want[k]) | (unsigned char)(res[k + 5] ^ want[k]);
    sym_assert(d == 0, "text");
}
// extreme integers
extern "C" void unit_fmtextreme() {
    std::string o;
    switch (pick("v", 6)) {
    case 0: o = pgfmt::format("{0}", std::numeric_limits<int64_t>::min()); sym_assert(o == "-9223372036854775808", "int64-min"); break;
    case 1: o = pgfmt::format("{0}", std::numeric_limits<uint64_t>::max()); sym_assert(o == "18446744073709551615", "uint64-max"); break;
    case 2: o = pgfmt::format("{0}", std::numeric_limits<int32_t>::min()); sym_assert(o == "-2147483648", "int32-min"); break;
    case 3: o = pgfmt::format("{0}", std::numeric_limits<uint32_t>::max()); sym_assert(o == "4294967295", "uint32-max"); break;
    case 4: o = pgfmt::format("{0}", std::numeric_limits<int16_t>::min()); sym_assert(o == "-32768", "int16-min"); break;
    default: o = pgfmt::format("{0}", std::numeric_limits<uint16_t>::max()); sym_assert(o == "65535", "uint16-max"); break;
    }
}
// a limit behind the colon is a minimum width; the text stays inside its buffers whatever the argument
extern "C" void unit_fmtwidth() {
    const char * W[] = {"1", "5", "08", "-6", "19", "30", "45"}; const int N[] = {1, 5, 8, 6, 19, 30, 45};
    uint32_t w = pick("w", 7), k = pick("kind", 4);
    std::string f = std::string("<{0:") + W[w] + "}>", out, body;
    uint8_t v = sym_u8("v");
    switch (k) {
    case 0: out = pgfmt::format(f, (int32_t)v); body = digits(v); break;
    case 1: out = pgfmt::format(f, (uint64_t)v); body = digits(v); break;
    case 2: out = pgfmt::format(f, "abc"); body = "abc"; break;
    default: out = pgfmt::format(f, std::string("xy")); body = "xy"; break;
    }
    bool zero = W[w][0] == '0' && k < 2, left = W[w][0] == '-';
    std::string pad((size_t)N[w] > body.size() ? N[w] - body.size() : 0, zero ? '0' : ' ');
    sym_assert(out == "<" + (left ? body + pad : pad + body) + ">", "padded");
}
// every format text of the given length over the alphabet of the format language
extern "C" void unit_fmttext() {
    uint32_t len = sym_param("len", 4);
    static const char AB[] = "{}01:a";
    std::string f;
    for (uint32_t i = 0; i < len; ++i) f += AB[sym_choice("c", 6)];
    // reference: {digits} with nothing else inside is replaced; an argument number beyond the arguments gives nothing;
    // text without a complete bracket pair is copied
    bool plain = true; // only judge texts whose brackets contain just a number below 2
    std::string want;
    for (size_t i = 0; i < f.size();) {
        size_t e;
        if (f[i] == '{' && (e = f.find('}', i)) != std::string::npos) {
            std::string in = f.substr(i + 1, e - i - 1);
            if (in == "0") want += "first";
            else if (in == "1") want += "2nd";
            else { plain = false; break; }
            i = e + 1;
        } else want += f[i++];
    }
    // a limit is a piece of a printf conversion; only a plain width is a valid one here
    for (size_t i = 0; i < f.size(); ++i)
        if (f[i] == ':' && f.rfind('{', i) != std::string::npos)
            for (size_t j = i + 1; j < f.size() && f[j] != '}'; ++j) sym_assume(f[j] == '0' || f[j] == '1');
    std::string out = pgfmt::format(f, "first", std::string("2nd"));
    if (plain) sym_assert(out == want, "substituted");
    std::string res = "kept ";
    pgfmt::formatAppend(res, f, "first", std::string("2nd"));
    if (plain && f.find('{') != std::string::npos && f.find('}', f.find('{')) != std::string::npos) sym_assert(res == "kept " + want, "appended");
}
// any bytes outside the brackets
extern "C" void unit_fmtbytes() {
    uint32_t n = sym_param("len", 2);
    std::string f, want;
    for (uint32_t i = 0; i < n; ++i) { char c = (char)sym_u8("c"); sym_assume(c != '{' && c != '}' && c != 0); f += c; want += c; }
    f += "{1}"; want += "xyz";
    for (uint32_t i = 0; i < n; ++i) { char c = (char)sym_u8("d"); sym_assume(c != '{' && c != '}' && c != 0); f += c; want += c; }
    f += "{0}"; want += "7";
    std::string out = pgfmt::format(f, 7, "xyz");
    sym_assert(out.size() == want.size(), "length");
    uint32_t d = 0;
    for (size_t i = 0; i < want.size(); ++i) d |= (unsigned char)(out[i] ^ want[i]);
    sym_assert(d == 0, "text");
}

// --- text stream
extern "C" void unit_stream() {
    using S = pg::base::StringReadStream;
    uint32_t n = sym_param("len", 2), steps = sym_param("steps", 4);
    bool copy = pick("copy", 2), fromStd = pick("std", 2);
    std::string src; char text[16];
    for (uint32_t i = 0; i < n; ++i) { text[i] = (char)sym_u8("c"); if (!fromStd) sym_assume(text[i] != 0); src += text[i]; }
    std::unique_ptr<char[]> exact(new char[n + 1]);
    for (uint32_t i = 0; i < n; ++i) exact[i] = text[i];
    exact[n] = 0;
    S made = fromStd ? S(src, copy) : S(exact.get(), copy);
    S * s = &made; std::unique_ptr<S> other;
    if (copy) { // the source may change or go away
        if (fromStd) { for (auto & c : src) c = '#'; src.clear(); src.shrink_to_fit(); }
        else if (pick("gone", 2)) exact.reset();
        else for (uint32_t i = 0; i < n; ++i) exact[i] = '#';
    }
    uint32_t pos = 0;
    for (uint32_t k = 0; k < steps; ++k) {
        sym_assert(s->eof() == (pos == n), "eof");
        sym_assert(s->tell() == pos, "position");
        switch (sym_choice("op", 3)) {
        case 0: { char c = s->peek(); sym_assert(c == (pos < n ? text[pos] : 0), "peek"); sym_assert(s->tell() == pos, "peek-consumes"); break; }
        case 1: { char c = s->get(); sym_assert(c == (pos < n ? text[pos] : 0), "get"); if (pos < n) ++pos; break; }
        default: if (!other) { other.reset(new S(std::move(*s))); sym_assert(s->eof() && s->get() == 0, "moved-from-is-empty"); s = other.get(); }
                 else { S t("zz", true); t.get(); t = std::move(*s); *s = std::move(t); } break;
        }
    }
    sym_assert(s->eof() == (pos == n) && s->tell() == pos, "end");
}

// --- symbol table: a history of registrations and look-ups over names that are each other's prefixes
extern "C" void unit_table() {
    pgbn::ObjectManager<uint32_t> t;
    static const char * N[] = {"", "a", "b", "ab", "a ", "A", "aa", "abcdefghijklmnopqrstuvwxyz"};
    uint32_t steps = sym_param("steps", 3), names = sym_param("names", 5);
    uint32_t val[8]; bool has[8] = {};
    for (uint32_t k = 0; k < steps; ++k) {
        uint32_t i = sym_choice("name", names);
        uint32_t x = sym_u32("x");
        t.registe(N[i], x); has[i] = true; val[i] = x;
        if (k + 1 == steps && pick("move", 2)) { pgbn::ObjectManager<uint32_t> u(std::move(t)); pgbn::ObjectManager<uint32_t> v; v.registe("b", 1); v = std::move(u); t = std::move(v); }
        uint32_t d = 0;
        for (uint32_t j = 0; j < 8; ++j) {
            const pgbn::ObjectManager<uint32_t> & c = t;
            const uint32_t * p = c.get(N[j]); uint32_t * q = t.get(N[j]);
            sym_assert((p != nullptr) == has[j] && p == q, "present");
            if (p && has[j]) d |= *p ^ val[j];
        }
        sym_assert(d == 0, "last-registration");
    }
}
// two-byte names, any bytes
extern "C" void unit_names() {
    pgbn::ObjectManager<uint32_t> t;
    uint32_t na = pick("na", 3), nb = pick("nb", 3), nq = pick("nq", 3);
    auto name = [](uint32_t n) { std::string r; for (uint32_t i = 0; i < n; ++i) r += (char)sym_u8("c"); return r; };
    std::string a = name(na), b = name(nb), q = name(nq);
    uint32_t x = sym_u32("x"), y = sym_u32("y");
    t.registe(a, x); t.registe(b, y);
    const uint32_t * p = t.get(q);
    auto eq = [](const std::string & s, const std::string & u) { if (s.size() != u.size()) return false; uint32_t d = 0; for (size_t i = 0; i < s.size(); ++i) d |= (unsigned char)(s[i] ^ u[i]); return d == 0; };
    if (eq(q, b)) sym_assert(p && *p == y, "last");
    else if (eq(q, a)) sym_assert(p && *p == x, "first");
    else sym_assert(!p, "absent");
}

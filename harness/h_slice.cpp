// Slice against a plain sequence.
#include "sym.h"
#include "Slice.h"
#include <memory>
#include <utility>
#include <vector>
using Sl = pgbn::Slice<uint32_t>;
static uint32_t pick(const char * name, uint32_t n) { uint64_t p = sym_param(name, ~0ull); return p < n ? (uint32_t)p : sym_choice(name, n); }

struct Seq { uint32_t v[24]; uint32_t n = 0; };
static void same(const Sl & s, const Seq & q, const char * id) {
    sym_assert(s.count() == q.n, id);
    uint32_t d = 0;
    for (uint32_t i = 0; i < q.n; ++i) { sym_observe("cell", s[i]); d |= s[i] ^ q.v[i]; }
    sym_assert((uint64_t)(s.end() - s.begin()) == q.n, id);
    for (uint32_t i = 0; i < q.n; ++i) d |= s.begin()[i] ^ q.v[i];
    sym_assert(d == 0, id);
}
// the same, by an index that the solver chooses
static void indexed(const Sl & s, const Seq & q, const char * id) {
    if (!q.n || !sym_param("idx", 0)) return;
    uint32_t k = sym_u32("k");
    sym_assume(k < q.n);
    sym_assert(s[k] == q.v[k], id);
}
// a slice in any state: cells in front, visible cells, cells behind
static Sl make(Seq & q, uint32_t lead, uint32_t n, uint32_t tail) {
    if (n == 0) { q.n = 0; return Sl(); }
    auto v = std::make_shared<std::vector<uint32_t>>(lead + n + tail);
    for (auto & x : *v) x = sym_u32("other");
    for (uint32_t i = 0; i < n; ++i) (*v)[lead + i] = q.v[i] = sym_u32("cell");
    q.n = n;
    return Sl(v, lead, lead + n);
}
constexpr uint32_t NS = 12;
// one operation of the owner of a detached slice
static void op(uint32_t o, Sl & s, Seq & q) {
    uint32_t x = sym_u32("x");
    switch (o) {
    case 0: { Sl & r = s.append(x); sym_assert(&r == &s, "returns-self"); q.v[q.n++] = x; break; }
    case 1: { Sl & r = s.prepend(x); sym_assert(&r == &s, "returns-self"); for (uint32_t i = q.n; i > 0; --i) q.v[i] = q.v[i - 1]; q.v[0] = x; ++q.n; break; }
    case 2: case 3: case 4: { uint32_t k = o - 1; s.preExtend(k, x); for (uint32_t i = q.n; i > 0; --i) q.v[i - 1 + k] = q.v[i - 1]; for (uint32_t i = 0; i < k; ++i) q.v[i] = x; q.n += k; break; }
    case 5: if (q.n) { uint32_t i = sym_choice("i", q.n); s[i] = x; q.v[i] = x; } break;
    case 6: if (q.n) { uint32_t hi = sym_choice("hi", q.n); s.slice(0, hi); q.n = hi; } break;             // cut behind
    case 7: if (q.n > 1) { uint32_t lo = sym_choice("lo", q.n - 1); s.slice(lo, q.n); for (uint32_t i = lo; i < q.n; ++i) q.v[i - lo] = q.v[i]; q.n -= lo; } break; // cut in front
    case 8: if (q.n > 2) { s.slice(1, q.n - 1); for (uint32_t i = 1; i < q.n; ++i) q.v[i - 1] = q.v[i]; q.n -= 2; } break;
    case 9: { Sl t(std::move(s)); sym_assert(s.count() == 0, "moved-from-empty"); s.append(x); sym_assert(s.count() == 1 && s[0] == x, "moved-from-usable"); s = std::move(t); sym_assert(t.count() == 0, "moved-from-empty"); break; }
    case 10: { Sl t; t.append(x); t.swap(s); sym_assert(s.count() == 1 && s[0] == x, "swapped"); swap(s, t); break; }
    default: { for (auto & c : s) c ^= x; for (uint32_t i = 0; i < q.n; ++i) q.v[i] ^= x; break; }
    }
}
extern "C" void unit_seq() {
    uint32_t L = sym_param("steps", 2);
    Seq q;
    Sl s = make(q, pick("lead", 4), pick("n", 4), pick("tail", 3));
    for (uint32_t i = 0; i < L; ++i) op(sym_choice("op", NS), s, q);
    same(s, q, "contents");
    indexed(s, q, "contents-at");
}
// two slices on the same storage: after detaching one of them, its changes are invisible to the other
extern "C" void unit_shared() {
    uint32_t L = sym_param("steps", 1);
    Seq q;
    Sl s = make(q, pick("lead", 3), pick("n", 4), pick("tail", 3));
    Sl t;
    Seq p = q;
    uint32_t how = pick("how", 5);
    if (how == 0) t = s;
    else if (how == 1) { Sl u(s); t = std::move(u); }
    else if (how == 2) { uint32_t lo = q.n ? sym_choice("from", q.n) : 0; t = s.sliced(lo, q.n); p.n = 0; for (uint32_t i = lo; i < q.n; ++i) p.v[p.n++] = q.v[i]; same(s, q, "sliced-leaves-source"); }
    else if (how == 3) { uint32_t hi = q.n ? 1 + sym_choice("to", q.n) : 0; t = s.sliced(0, hi); p = q; p.n = hi; same(s, q, "sliced-leaves-source"); }
    else { Sl u; t = u; u = s; t = u; }
    same(t, p, "copy");
    sym_assert(q.n == 0 || t.hasSameBaseData(s), "shares");
    sym_assert(t.weakEquals(s) == (q.n == p.n && t.hasSameBaseData(s)), "weak-equality");
    bool second = pick("which", 2);
    Sl & w = second ? t : s; Seq & wq = second ? p : q;
    Sl & o = second ? s : t; Seq & oq = second ? q : p;
    Seq kept = oq;
    w.cloneData();
    same(w, wq, "detached");
    same(o, kept, "other");
    sym_assert(q.n == 0 || !w.hasSameBaseData(o), "separate");
    for (uint32_t i = 0; i < L; ++i) {
        op(sym_choice("op", NS), w, wq);
        if (pick("clone", 2)) w.cloneData();
    }
    same(w, wq, "contents");
    same(o, kept, "other");
    // now the other side owns its storage
    o.cloneData();
    op(5, o, oq); op(0, o, oq); op(1, o, oq);
    same(o, oq, "other-written");
    same(w, wq, "contents-still");
    indexed(w, wq, "contents-at");
    indexed(o, oq, "other-at");
}
// extending the window beyond the end of the storage shows cells that can be written
extern "C" void unit_grow() {
    Seq q;
    Sl s = make(q, pick("lead", 3), 1 + pick("n", 3), pick("tail", 3));
    uint32_t hi = q.n + sym_choice("more", 4), lo = sym_choice("lo", q.n);
    s.slice(lo, hi);
    sym_assert(s.count() == hi - lo, "count");
    for (uint32_t i = q.n; i < hi; ++i) { q.v[i] = sym_u32("x"); s[i - lo] = q.v[i]; }
    Seq p; for (uint32_t i = lo; i < hi; ++i) p.v[p.n++] = q.v[i];
    same(s, p, "contents");
    auto v = std::make_shared<std::vector<uint32_t>>(2);
    (*v)[0] = 7; (*v)[1] = 8;
    Sl whole(v); sym_assert(whole.count() == 2 && whole[0] == 7 && whole[1] == 8, "whole-vector");
    Sl big(v, 1, 4); sym_assert(big.count() == 3 && big[0] == 8, "window-grows-storage");
    big[2] = 5; sym_assert(big[2] == 5, "window-grows-storage");
}

#include "solver.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <chrono>
#include <functional>
#include <map>
#include <optional>
#include <llvm/ADT/SmallString.h>
#include <z3++.h>
using boost::multiprecision::cpp_int;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static std::vector<uint8_t> hardMemo;
unsigned hardness(E e) {
    if (e->op == CONST || e->op == SYM) return 0;
    if (hardMemo.size() <= e->id) hardMemo.resize(X.all.size() + 1024, 0xff);
    if (hardMemo[e->id] != 0xff) return hardMemo[e->id];
    unsigned r = 0;
    for (E k : {e->a, e->b, e->c}) if (k) r |= hardness(k);
    if (e->op == MUL) r |= e->b->isC() || e->a->isC() ? 2 : 1;
    if (e->op == UDIV || e->op == UREM || e->op == SDIV || e->op == SREM) r |= e->b->isC() ? 2 : 4;
    hardMemo[e->id] = r;
    return r;
}

static std::string str(const APInt & v) { llvm::SmallString<128> s; v.toString(s, 10, false); return std::string(s.str()); }
static cpp_int toBig(const APInt & v) { return cpp_int(str(v)); }
static cpp_int pow2(unsigned n) { cpp_int r = 1; return r << n; }
static cpp_int floorDiv(const cpp_int & a, const cpp_int & b) { cpp_int q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) --q; return q; }

// ------------------------------------------------------------------ bit-vector translation
struct BVTr {
    z3::context ctx;
    // abstract: products and quotients of two unknowns become fresh values with a few facts that hold for any operands
    bool abstract = false;
    std::unordered_map<uint32_t, std::vector<z3::expr>> facts; // by id of the abstracted operation
    // fresh 64-bit product of two 32-bit values, shared by every multiplication that contains it
    std::map<std::pair<uint32_t, uint32_t>, z3::expr> prods;
    std::unordered_map<uint32_t, std::vector<std::pair<uint32_t, uint32_t>>> uses; // products used by an operation
    std::map<std::pair<uint32_t, uint32_t>, std::vector<z3::expr>> pfacts;
    std::map<std::pair<uint32_t, uint32_t>, std::pair<E, E>> pargs;
    static unsigned bitsOf(E x) { unsigned n = x->w; if (x->w <= 64) { n = 0; while (n < 64 && (x->mx >> n)) ++n; } else if (x->op == ZEXT) n = bitsOf(x->a); return n ? n : 1; }
    z3::expr cst(const APInt & m) { llvm::SmallString<128> s; m.toString(s, 10, false); return ctx.bv_val(s.c_str(), m.getBitWidth()); }
    z3::expr limbProduct(E a, E b, uint32_t user) { // operands of at most 32 bits, result 64 bits
        if (a->id > b->id) std::swap(a, b);
        if (a->isC()) std::swap(a, b);
        if (b->isC()) {
            if (a->isC()) return ctx.bv_val((uint64_t)a->cv * b->cv, 64);
            if (b->cv == 0) return ctx.bv_val(0, 64);
            if ((b->cv & (b->cv - 1)) == 0) return z3::zext(tr(a), 64 - a->w) * ctx.bv_val((uint64_t)b->cv, 64);
            auto lg = [](uint64_t v) { unsigned n = 0; while (v >>= 1) ++n; return n; };
            z3::expr A = z3::zext(tr(a), 64 - a->w);
            if ((b->cv & (b->cv + 1)) == 0) return z3::shl(A, ctx.bv_val(lg(b->cv + 1), 64)) - A;
            if (((b->cv - 1) & (b->cv - 2)) == 0) return z3::shl(A, ctx.bv_val(lg(b->cv - 1), 64)) + A;
        }
        auto key = std::make_pair(a->id, b->id);
        auto it = prods.find(key);
        uses[user].push_back(key);
        if (it != prods.end()) return it->second;
        z3::expr p = ctx.bv_const(("p" + std::to_string(a->id) + "_" + std::to_string(b->id)).c_str(), 64);
        z3::expr A = z3::zext(tr(a), 64 - a->w), B = z3::zext(tr(b), 64 - b->w), z = ctx.bv_val(0, 64), one = ctx.bv_val(1, 64);
        auto & f = pfacts[key];
        f.push_back(z3::ule(p, ctx.bv_val((uint64_t)((unsigned __int128)a->mx * b->mx), 64)));
        f.push_back(z3::ule(p, z3::shl(A, ctx.bv_val(b->w, 64)) - A));
        f.push_back(z3::ule(p, z3::shl(B, ctx.bv_val(a->w, 64)) - B));
        f.push_back((p == z) == (A == z || B == z));
        f.push_back(z3::implies(B != z, z3::ule(A, p)));
        f.push_back(z3::implies(A != z, z3::ule(B, p)));
        f.push_back(z3::implies(A == one, p == B));
        f.push_back(z3::implies(B == one, p == A));
        prods.emplace(key, p); pargs.emplace(key, std::make_pair(a, b));
        return p;
    }
    z3::expr wideProduct(E a, E b, unsigned w, uint32_t user) { // a * b modulo 2^w
        unsigned na = bitsOf(a), nb = bitsOf(b);
        z3::expr sum = ctx.bv_val(0, w);
        auto fit = [&](z3::expr x) { unsigned k = x.get_sort().bv_size(); return k == w ? x : k < w ? z3::zext(x, w - k) : x.extract(w - 1, 0); };
        for (unsigned i = 0; i < na && i < w; i += 32)
            for (unsigned j = 0; j < nb && i + j < w; j += 32) {
                E x = X.extract(a, i, std::min(32u, a->w - i)), y = X.extract(b, j, std::min(32u, b->w - j));
                z3::expr t = fit(limbProduct(x, y, user));
                if (i + j) t = z3::concat(t.extract(w - 1 - i - j, 0), ctx.bv_val(0, i + j));
                sum = sum + t;
            }
        return sum;
    }
    z3::expr product(E e) { return wideProduct(e->a, e->b, e->w, e->id); }
    z3::expr quotient(E e) {
        // one pair of fresh values per (dividend, divisor); q * b + r == a without wrapping
        std::string k = std::to_string(e->a->id) + "_" + std::to_string(e->b->id);
        unsigned w = e->w;
        z3::expr q = ctx.bv_const(("dq" + k).c_str(), w), r = ctx.bv_const(("dr" + k).c_str(), w), a = tr(e->a), b = tr(e->b), z = ctx.bv_val(0, w);
        E Q = X.bin(UDIV, e->a, e->b), R = X.bin(UREM, e->a, e->b);
        auto setm = [&](E x, z3::expr v) { if (memo.size() <= x->id) memo.resize(X.all.size() + 1024); if ((x->op == UDIV || x->op == UREM) && !memo[x->id]) memo[x->id] = v; };
        setm(Q, q); setm(R, r);
        std::vector<z3::expr> g;
        g.push_back(z3::implies(b != z, z3::ult(r, b) && z3::ule(q, a) && z3::ule(r, a)));
        g.push_back(z3::implies(b != z && z3::ult(a, b), q == z && r == a));
        g.push_back(z3::implies(z3::uge(a, b) && b != z, q != z));
        if (Q->op == UDIV) {
            z3::expr qb = wideProduct(Q, e->b, 2 * w, e->id);
            g.push_back(z3::implies(b != z, qb + z3::zext(r, w) == z3::zext(a, w)));
            if (w == 64) {
                z3::expr s32 = ctx.bv_val(32, w);
                g.push_back(z3::implies(b != z && z3::ult(z3::lshr(a, s32), b), z3::ult(q, z3::shl(ctx.bv_val(1, w), s32))));
            }
        }
        facts[e->id] = g;
        auto us = uses[e->id];
        for (E x : {Q, R}) if (x != e && (x->op == UDIV || x->op == UREM)) { facts[x->id] = g; uses[x->id] = us; }
        return e->op == UDIV ? q : r;
    }
    std::set<std::pair<uint32_t, uint32_t>> pdone;
    void useOf(uint32_t id, std::unordered_map<uint32_t, bool> & seen, z3::solver & s) {
        auto it = uses.find(id);
        if (it == uses.end()) return;
        auto list = it->second;
        for (auto & k : list) if (pdone.insert(k).second) {
            for (auto & f : pfacts[k]) s.add(f);
            auto [a, b] = pargs.at(k);
            collect(a, seen, s); collect(b, seen, s);
        }
    }
    void collect(E e, std::unordered_map<uint32_t, bool> & seen, z3::solver & s) {
        if (!e || e->op == CONST || e->op == SYM || !(hardness(e) & 7)) return;
        if (seen[e->id]) return;
        seen[e->id] = true;
        for (E k : {e->a, e->b, e->c}) collect(k, seen, s);
        auto it = facts.find(e->id);
        if (it != facts.end()) for (auto & f : it->second) s.add(f);
        useOf(e->id, seen, s);
    }
    std::vector<std::optional<z3::expr>> memo;
    z3::expr boolOf(E e) { // 1-bit as bool
        switch (e->op) {
        case CONST: return ctx.bool_val(e->cv != 0);
        case EQ: if (e->a->w == 1) return boolOf(e->a) == boolOf(e->b); return tr(e->a) == tr(e->b);
        case ULT: return z3::ult(tr(e->a), tr(e->b));
        case ULE: return z3::ule(tr(e->a), tr(e->b));
        case SLT: return z3::slt(tr(e->a), tr(e->b));
        case SLE: return z3::sle(tr(e->a), tr(e->b));
        case AND: return boolM(e->a) && boolM(e->b);
        case OR: return boolM(e->a) || boolM(e->b);
        case XOR: if (e->b->isC()) return e->b->cv ? !boolM(e->a) : boolM(e->a); return boolM(e->a) != boolM(e->b);
        case ITE: return z3::ite(boolM(e->a), boolM(e->b), boolM(e->c));
        default: return tr(e) == ctx.bv_val(1, 1);
        }
    }
    std::unordered_map<uint32_t, z3::expr> bmemo;
    z3::expr boolM(E e) {
        auto it = bmemo.find(e->id);
        if (it != bmemo.end()) return it->second;
        z3::expr r = boolOf(e);
        bmemo.emplace(e->id, r);
        return r;
    }
    z3::expr tr(E e) {
        if (memo.size() <= e->id) memo.resize(X.all.size() + 1024);
        if (memo[e->id]) return *memo[e->id];
        z3::expr r = go(e);
        if (memo.size() <= e->id) memo.resize(X.all.size() + 1024);
        memo[e->id] = r;
        return r;
    }
    static bool manyBits(E e) { return e->isC() && e->ap().popcount() > 1; }
    z3::expr go(E e) {
        switch (e->op) {
        case CONST: return e->w <= 64 ? ctx.bv_val((uint64_t)e->cv, e->w) : ctx.bv_val(str(*e->big).c_str(), e->w);
        case SYM: return ctx.bv_const(("s" + std::to_string(e->lo)).c_str(), e->w);
        case ADD: return tr(e->a) + tr(e->b);
        case SUB: return tr(e->a) - tr(e->b);
        case MUL: if (abstract && e->w > 16 && ((!e->a->isC() && !e->b->isC()) || manyBits(e->a) || manyBits(e->b))) return product(e); return tr(e->a) * tr(e->b);
        case UDIV: if (abstract && e->w > 16 && (!e->b->isC() || manyBits(e->b))) return quotient(e); return z3::udiv(tr(e->a), tr(e->b));
        case UREM: if (abstract && e->w > 16 && (!e->b->isC() || manyBits(e->b))) return quotient(e); return z3::urem(tr(e->a), tr(e->b));
        case SDIV: return tr(e->a) / tr(e->b);
        case SREM: return z3::srem(tr(e->a), tr(e->b));
        case AND: if (e->w == 1) break; return tr(e->a) & tr(e->b);
        case OR: if (e->w == 1) break; return tr(e->a) | tr(e->b);
        case XOR: if (e->w == 1) break; return tr(e->a) ^ tr(e->b);
        case SHL: return z3::shl(tr(e->a), tr(e->b));
        case LSHR: return z3::lshr(tr(e->a), tr(e->b));
        case ASHR: return z3::ashr(tr(e->a), tr(e->b));
        case ITE: return z3::ite(boolM(e->a), tr(e->b), tr(e->c));
        case CONCAT: return z3::concat(tr(e->a), tr(e->b));
        case EXTRACT: return tr(e->a).extract(e->lo + e->w - 1, e->lo);
        case ZEXT: return z3::zext(tr(e->a), e->w - e->a->w);
        case SEXT: return z3::sext(tr(e->a), e->w - e->a->w);
        default: break;
        }
        return z3::ite(boolM(e), ctx.bv_val(1, 1), ctx.bv_val(0, 1));
    }
};

// ------------------------------------------------------------------ integer (polynomial / linear) translation
using Mono = std::vector<uint32_t>;
using Poly = std::map<Mono, cpp_int>;
struct IntTerm { Poly p; cpp_int lo, hi; };

static void padd(Poly & a, const Poly & b, const cpp_int & k) {
    for (auto & [m, c] : b) {
        auto it = a.find(m);
        if (it == a.end()) { a.emplace(m, c * k); continue; }
        it->second += c * k;
        if (it->second == 0) a.erase(it);
    }
}

struct LiaTr {
    z3::context ctx;
    struct Atom { z3::expr v; cpp_int lo, hi; std::vector<z3::expr> defs; std::vector<uint32_t> deps; int sym = -1; };
    std::vector<Atom> atoms;
    std::map<Mono, uint32_t> monoAtom;
    std::unordered_map<uint32_t, IntTerm> memo;
    struct BT { z3::expr e; std::vector<uint32_t> deps; };
    std::unordered_map<uint32_t, BT> bmemo;
    std::unordered_map<uint32_t, std::map<unsigned, uint32_t>> shrAtoms; // expr id -> shift -> atom
    std::map<std::pair<uint32_t, std::string>, uint32_t> divAtoms;
    std::unordered_map<uint32_t, uint32_t> bitAtoms;

    uint32_t newAtom(const std::string & n, const cpp_int & lo, const cpp_int & hi) {
        atoms.push_back({ctx.int_const((n + "!" + std::to_string(atoms.size())).c_str()), lo, hi, {}, {}, -1});
        return atoms.size() - 1;
    }
    z3::expr num(const cpp_int & v) { return ctx.int_val(v.str().c_str()); }
    uint32_t atomOfMono(const Mono & m) {
        if (m.size() == 1) return m[0];
        auto it = monoAtom.find(m);
        if (it != monoAtom.end()) return it->second;
        cpp_int lo = 1, hi = 1; // atoms in products: interval product
        bool first = true;
        for (auto a : m) {
            if (first) { lo = atoms[a].lo; hi = atoms[a].hi; first = false; continue; }
            cpp_int c[4] = {lo * atoms[a].lo, lo * atoms[a].hi, hi * atoms[a].lo, hi * atoms[a].hi};
            lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4);
        }
        uint32_t r = newAtom("m", lo, hi);
        monoAtom[m] = r;
        return r;
    }
    z3::expr toZ3(const Poly & p, std::vector<uint32_t> & deps) {
        z3::expr_vector v(ctx);
        for (auto & [m, c] : p) {
            if (m.empty()) { v.push_back(num(c)); continue; }
            uint32_t a = atomOfMono(m);
            deps.push_back(a);
            if (c == 1) v.push_back(atoms[a].v); else v.push_back(num(c) * atoms[a].v);
        }
        if (v.empty()) return ctx.int_val(0);
        if (v.size() == 1) return v[0];
        return z3::sum(v);
    }
    static Poly cpoly(const cpp_int & k) { Poly p; if (k != 0) p[{}] = k; return p; }
    static Poly apoly(uint32_t a) { Poly p; p[{a}] = 1; return p; }
    void clampE(E e, IntTerm & t) {
        if (e->w <= 64) { cpp_int mn = e->mn, mx = e->mx; if (t.lo < mn) t.lo = mn; if (t.hi > mx) t.hi = mx; }
        else { if (t.lo < 0) t.lo = 0; cpp_int m = pow2(e->w) - 1; if (t.hi > m) t.hi = m; }
    }
    // value of an exact integer expression reduced modulo 2^w
    IntTerm wrap(E e, Poly p, cpp_int lo, cpp_int hi) {
        cpp_int M = pow2(e->w);
        if (lo >= 0 && hi < M) return {p, lo, hi};
        cpp_int klo = floorDiv(lo, M), khi = floorDiv(hi, M);
        if (klo == khi) { padd(p, cpoly(1), -klo * M); return {p, lo - klo * M, hi - klo * M}; }
        uint32_t k = newAtom("w" + std::to_string(e->id), klo, khi);
        padd(p, apoly(k), -M);
        std::vector<uint32_t> deps;
        z3::expr z = toZ3(p, deps);
        atoms[k].defs.push_back(z >= 0); atoms[k].defs.push_back(z <= num(M - 1));
        atoms[k].deps = deps;
        return {p, 0, M - 1};
    }
    // floor(x / 2^c)
    IntTerm shr(E x, unsigned c) {
        IntTerm t = term(x);
        if (c == 0) return t;
        cpp_int D = pow2(c);
        cpp_int lo = floorDiv(t.lo, D), hi = floorDiv(t.hi, D);
        if (lo == hi) return {cpoly(lo), lo, hi};
        auto & mp = shrAtoms[x->id];
        auto it = mp.find(c);
        if (it == mp.end()) {
            uint32_t a = newAtom("q" + std::to_string(x->id) + "_" + std::to_string(c), lo, hi);
            Poly d = t.p; padd(d, apoly(a), -D);
            std::vector<uint32_t> deps;
            z3::expr z = toZ3(d, deps);
            atoms[a].defs.push_back(z >= 0); atoms[a].defs.push_back(z <= num(D - 1));
            atoms[a].deps = deps;
            // telescoping facts with neighbouring shifts of the same value
            auto & mp2 = shrAtoms[x->id];
            for (auto & [c2, a2] : mp2) {
                unsigned l = std::min(c, c2), h = std::max(c, c2);
                uint32_t al = c < c2 ? a : a2, ah = c < c2 ? a2 : a;
                cpp_int D2 = pow2(h - l);
                z3::expr f = atoms[al].v - num(D2) * atoms[ah].v;
                atoms[a].defs.push_back(f >= 0); atoms[a].defs.push_back(f <= num(D2 - 1));
                atoms[a].deps.push_back(a2);
            }
            mp2[c] = a;
            return {apoly(a), lo, hi};
        }
        return {apoly(it->second), lo, hi};
    }
    uint32_t bitAtom(E b) {
        auto it = bitAtoms.find(b->id);
        if (it != bitAtoms.end()) return it->second;
        if (b->op == EXTRACT) { // bit of a wider value
        }
        BT t = boolTr(b);
        uint32_t a = newAtom("b" + std::to_string(b->id), 0, 1);
        atoms[a].defs.push_back(atoms[a].v == z3::ite(t.e, ctx.int_val(1), ctx.int_val(0)));
        atoms[a].deps = t.deps;
        bitAtoms[b->id] = a;
        return a;
    }
    IntTerm opaque(E e) {
        cpp_int hi = e->w <= 64 ? cpp_int(e->mx) : cpp_int(pow2(e->w) - 1), lo = e->w <= 64 ? cpp_int(e->mn) : cpp_int(0);
        uint32_t a = newAtom("o" + std::to_string(e->id), lo, hi);
        // facts that hold for any operands
        if ((e->op == AND || e->op == OR) && e->w > 1) {
            for (E k : {e->a, e->b}) {
                IntTerm t = term(k);
                std::vector<uint32_t> deps;
                z3::expr z = toZ3(t.p, deps);
                atoms[a].defs.push_back(e->op == AND ? atoms[a].v <= z : atoms[a].v >= z);
                atoms[a].deps.insert(atoms[a].deps.end(), deps.begin(), deps.end());
            }
        }
        return {apoly(a), lo, hi};
    }
    IntTerm term(E e) {
        auto it = memo.find(e->id);
        if (it != memo.end()) return it->second;
        IntTerm t = go(e);
        clampE(e, t);
        memo.emplace(e->id, t);
        return t;
    }
    IntTerm go(E e) {
        cpp_int M = pow2(e->w);
        switch (e->op) {
        case CONST: { cpp_int v = e->w <= 64 ? cpp_int(e->cv) : toBig(*e->big); return {cpoly(v), v, v}; }
        case SYM: { uint32_t a = newAtom("s", 0, cpp_int(e->mx)); atoms[a].sym = e->lo; return {apoly(a), 0, cpp_int(e->mx)}; }
        case ADD: { IntTerm A = term(e->a), B = term(e->b); padd(A.p, B.p, 1); return wrap(e, A.p, A.lo + B.lo, A.hi + B.hi); }
        case SUB: { IntTerm A = term(e->a), B = term(e->b); padd(A.p, B.p, -1); return wrap(e, A.p, A.lo - B.hi, A.hi - B.lo); }
        case MUL: {
            IntTerm A = term(e->a), B = term(e->b);
            Poly p;
            if (A.p.size() * B.p.size() > 20000) return opaque(e);
            bool big = false;
            for (auto & [m, c] : A.p) for (auto & [n, d] : B.p) {
                Mono k = m; k.insert(k.end(), n.begin(), n.end()); std::sort(k.begin(), k.end());
                if (k.size() > 6) big = true;
                auto it = p.find(k);
                if (it == p.end()) p.emplace(k, c * d); else { it->second += c * d; if (it->second == 0) p.erase(it); }
            }
            if (big) return opaque(e);
            return wrap(e, p, A.lo * B.lo, A.hi * B.hi); }
        case UDIV: case UREM: {
            if (!e->b->isC()) return divSym(e);
            cpp_int d = e->b->w <= 64 ? cpp_int(e->b->cv) : toBig(*e->b->big);
            if (d == 0) return opaque(e);
            IntTerm A = term(e->a);
            cpp_int lo = A.lo / d, hi = A.hi / d;
            Poly q;
            if (lo == hi) q = cpoly(lo);
            else {
                auto key = std::make_pair(e->a->id, d.str());
                auto it = divAtoms.find(key);
                if (it == divAtoms.end()) {
                    uint32_t a = newAtom("d" + std::to_string(e->id), lo, hi);
                    Poly r = A.p; padd(r, apoly(a), -d);
                    std::vector<uint32_t> deps; z3::expr z = toZ3(r, deps);
                    atoms[a].defs.push_back(z >= 0); atoms[a].defs.push_back(z <= num(d - 1));
                    atoms[a].deps = deps;
                    it = divAtoms.emplace(key, a).first;
                }
                q = apoly(it->second);
            }
            if (e->op == UDIV) return {q, lo, hi};
            Poly r = A.p; padd(r, q, -d);
            return {r, 0, d - 1}; }
        case AND: case OR: case XOR:
            if (e->w == 1) break;
            if (e->op == XOR && e->b->isC() && e->b->ap().isAllOnes()) { IntTerm A = term(e->a); Poly p = cpoly(M - 1); padd(p, A.p, -1); return {p, M - 1 - A.hi, M - 1 - A.lo}; }
            return opaque(e);
        case SDIV: case SREM: case SHL: case LSHR: case ASHR: return opaque(e);
        case ITE: {
            IntTerm A = term(e->b), B = term(e->c);
            cpp_int lo = std::min(A.lo, B.lo), hi = std::max(A.hi, B.hi);
            Poly d = A.p; padd(d, B.p, -1);
            if (d.empty()) return A;
            if (d.size() == 1 && d.begin()->first.empty()) {
                Poly r = B.p; padd(r, apoly(bitAtom(e->a)), d.begin()->second);
                return {r, lo, hi};
            }
            BT c = boolTr(e->a);
            uint32_t a = newAtom("i" + std::to_string(e->id), lo, hi);
            std::vector<uint32_t> deps = c.deps;
            z3::expr za = toZ3(A.p, deps), zb = toZ3(B.p, deps);
            atoms[a].defs.push_back(z3::implies(c.e, atoms[a].v == za));
            atoms[a].defs.push_back(z3::implies(!c.e, atoms[a].v == zb));
            atoms[a].deps = deps;
            return {apoly(a), lo, hi}; }
        case CONCAT: { IntTerm A = term(e->a), B = term(e->b); cpp_int k = pow2(e->b->w); Poly p = B.p; padd(p, A.p, k); return {p, A.lo * k + B.lo, A.hi * k + B.hi}; }
        case EXTRACT: {
            IntTerm l = shr(e->a, e->lo);
            if (e->lo + e->w >= e->a->w) return l;
            IntTerm h = shr(e->a, e->lo + e->w);
            Poly p = l.p; padd(p, h.p, -M);
            if (h.lo == h.hi) return {p, l.lo - h.lo * M, l.hi - h.lo * M};
            return {p, 0, M - 1}; }
        case ZEXT: if (e->a->w == 1) break; return term(e->a);
        case SEXT: {
            if (e->a->w == 1) { Poly p; padd(p, apoly(bitAtom(e->a)), M - 1); return {p, 0, M - 1}; }
            IntTerm A = term(e->a), s = shr(e->a, e->a->w - 1);
            Poly p = A.p; padd(p, s.p, M - pow2(e->a->w));
            return {p, 0, M - 1}; }
        default: break;
        }
        // boolean
        E b = e->op == ZEXT ? e->a : e;
        return {apoly(bitAtom(b)), 0, 1};
    }
    std::map<std::pair<uint32_t, uint32_t>, uint32_t> symDiv;
    IntTerm divSym(E e) {
        IntTerm A = term(e->a), B = term(e->b);
        auto key = std::make_pair(e->a->id, e->b->id);
        auto it = symDiv.find(key);
        if (it == symDiv.end()) {
            cpp_int hi = B.lo > 0 ? A.hi / B.lo : A.hi;
            if (pow2(e->w) - 1 > hi && B.lo == 0) hi = pow2(e->w) - 1;
            uint32_t q = newAtom("sd" + std::to_string(e->id), 0, hi);
            // r = A - q*B
            Poly r = A.p;
            for (auto & [m, c] : B.p) { Mono k = m; k.push_back(q); std::sort(k.begin(), k.end()); Poly t; t[k] = 1; padd(r, t, -c); }
            std::vector<uint32_t> deps;
            z3::expr zr = toZ3(r, deps), zb = toZ3(B.p, deps);
            if (B.lo > 0) { atoms[q].defs.push_back(zr >= 0); atoms[q].defs.push_back(zr < zb); }
            else { atoms[q].defs.push_back(z3::implies(zb > 0, zr >= 0 && zr < zb)); }
            atoms[q].deps = deps;
            it = symDiv.emplace(key, q).first;
        }
        if (e->op == UDIV) return {apoly(it->second), 0, atoms[it->second].hi};
        if (B.lo > 0) {
            Poly r = A.p;
            for (auto & [m, c] : B.p) { Mono k = m; k.push_back(it->second); std::sort(k.begin(), k.end()); Poly t; t[k] = 1; padd(r, t, -c); }
            return {r, 0, B.hi - 1};
        }
        return opaque(e);
    }
    BT boolTr(E e) {
        auto it = bmemo.find(e->id);
        if (it != bmemo.end()) return it->second;
        BT t = bgo(e);
        bmemo.emplace(e->id, t);
        return t;
    }
    BT bgo(E e) {
        std::vector<uint32_t> d;
        auto two = [&](std::function<z3::expr(z3::expr, z3::expr)> f) {
            BT a = boolTr(e->a), b = boolTr(e->b);
            d = a.deps; d.insert(d.end(), b.deps.begin(), b.deps.end());
            return BT{f(a.e, b.e), d};
        };
        switch (e->op) {
        case CONST: return {ctx.bool_val(e->cv != 0), {}};
        case AND: return two([](z3::expr a, z3::expr b) { return a && b; });
        case OR: return two([](z3::expr a, z3::expr b) { return a || b; });
        case XOR: return two([](z3::expr a, z3::expr b) { return a != b; });
        case ITE: {
            BT a = boolTr(e->a), b = boolTr(e->b), c = boolTr(e->c);
            d = a.deps; d.insert(d.end(), b.deps.begin(), b.deps.end()); d.insert(d.end(), c.deps.begin(), c.deps.end());
            return {z3::ite(a.e, b.e, c.e), d}; }
        case EQ: case ULT: case ULE: case SLT: case SLE: {
            if (e->a->w == 1 && e->op == EQ) return two([](z3::expr a, z3::expr b) { return a == b; });
            IntTerm A = term(e->a), B = term(e->b);
            if (e->op == SLT || e->op == SLE) {
                cpp_int M = pow2(e->a->w);
                for (auto [x, t] : {std::make_pair(e->a, &A), std::make_pair(e->b, &B)}) {
                    IntTerm s = shr(x, x->w - 1);
                    padd(t->p, s.p, -M);
                    if (s.lo == s.hi) { t->lo -= s.lo * M; t->hi -= s.lo * M; } else { t->lo = -M / 2; t->hi = M / 2 - 1; }
                }
            }
            Poly p = A.p; padd(p, B.p, -1);
            if (p.empty() || (p.size() == 1 && p.begin()->first.empty())) {
                cpp_int v = p.empty() ? cpp_int(0) : p.begin()->second;
                bool r = e->op == EQ ? v == 0 : (e->op == ULT || e->op == SLT) ? v < 0 : v <= 0;
                return {ctx.bool_val(r), {}};
            }
            // divide by common factor for readability of the constraint
            z3::expr z = toZ3(p, d);
            z3::expr zero = ctx.int_val(0);
            return {e->op == EQ ? z == zero : (e->op == ULT || e->op == SLT) ? z < zero : z <= zero, d}; }
        case EXTRACT: {
            IntTerm t = term1(e);
            z3::expr z = toZ3(t.p, d);
            return {z == 1, d}; }
        case SYM: { IntTerm t = termSym(e); z3::expr z = toZ3(t.p, d); return {z == 1, d}; }
        default: { IntTerm t = opaque(e); z3::expr z = toZ3(t.p, d); return {z == 1, d}; }
        }
    }
    std::unordered_map<uint32_t, IntTerm> bitTerm;
    IntTerm term1(E e) { // 1-bit extract as integer
        auto it = bitTerm.find(e->id);
        if (it != bitTerm.end()) return it->second;
        IntTerm l = shr(e->a, e->lo);
        IntTerm r = l;
        if (e->lo + 1 < e->a->w) { IntTerm h = shr(e->a, e->lo + 1); padd(r.p, h.p, -2); }
        bitTerm.emplace(e->id, r);
        return r;
    }
    std::unordered_map<uint32_t, IntTerm> symTerm;
    IntTerm termSym(E e) {
        auto it = symTerm.find(e->id);
        if (it != symTerm.end()) return it->second;
        IntTerm t = go(e);
        symTerm.emplace(e->id, t);
        return t;
    }
};

struct Solver::Impl {
    BVTr bv, bva;
    LiaTr lia;
    struct CacheE { std::vector<E> key; Res r; ModelP m; };
    std::unordered_multimap<uint64_t, CacheE> cache;
    std::deque<ModelP> recent;
    // incremental bit-vector solver, renewed from time to time
    std::unique_ptr<z3::solver> inc;
    std::unordered_map<uint32_t, z3::expr> lits;
    unsigned incUses = 0;
};
Solver::Solver() : p(new Impl) { p->bva.abstract = true; }
Solver::~Solver() {}

std::vector<E> Solver::slice(const std::vector<E> & pc, E c) {
    std::vector<E> r{c};
    if (!c->syms) return r;
    SymSet s = *c->syms;
    std::vector<char> used(pc.size(), 0);
    bool again = true;
    while (again) {
        again = false;
        for (size_t i = 0; i < pc.size(); ++i)
            if (!used[i] && pc[i]->syms && pc[i]->syms->intersects(s)) { used[i] = 1; s.add(*pc[i]->syms); again = true; }
    }
    for (size_t i = 0; i < pc.size(); ++i) if (used[i]) r.push_back(pc[i]);
    return r;
}

static bool satisfied(Model & m, const std::vector<E> & cs) { for (E c : cs) if (!m.truth(c)) return false; return true; }

Res Solver::check(const std::vector<E> & cs0, const ModelP & base, ModelP & out, bool important) {
    std::vector<E> cs;
    for (E c : cs0) { if (c->isC()) { if (!c->cv) return UNSAT; continue; } cs.push_back(c); }
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    SymSet used;
    for (E c : cs) if (c->syms) used.add(*c->syms);
    if (!cs.empty()) for (size_t i = 0; i < X.syms.size(); ++i) if (X.syms[i].range && used.test(i)) cs.push_back(X.syms[i].range);
    auto overlay = [&](Model & src) {
        auto m = std::make_shared<Model>();
        m->v.resize(X.syms.size());
        for (size_t i = 0; i < X.syms.size(); ++i) m->v[i] = used.test(i) ? src.symVal(i) : base ? base->symVal(i) : 0;
        return m;
    };
    ++st.queries;
    if (cs.empty()) { Model z; out = overlay(z); ++st.sat; return SAT; }
    uint64_t h = cs.size();
    for (E c : cs) h = h * 1000003 + c->id;
    auto rg = p->cache.equal_range(h);
    for (auto it = rg.first; it != rg.second; ++it)
        if (it->second.key == cs && !(important && it->second.r == UNKNOWN)) { ++st.cacheHits; if (it->second.r == SAT) { out = overlay(*it->second.m); ++st.sat; } else if (it->second.r == UNSAT) ++st.unsat; else ++st.unknown; return it->second.r; }
    for (auto & m : p->recent) if (satisfied(*m, cs)) { ++st.modelHits; ++st.sat; out = overlay(*m); p->cache.emplace(h, Impl::CacheE{cs, SAT, out}); return SAT; }

    double t0 = now();
    unsigned hd = 0;
    for (E c : cs) hd |= hardness(c);
    Res res = UNKNOWN;
    ModelP cand;
    auto tryBV = [&](unsigned ms, bool abstract = false) {
        ++st.bv;
        BVTr & B = abstract ? p->bva : p->bv;
        try {
            z3::context & c = B.ctx;
            z3::solver s = z3::tactic(c, "qfbv").mk_solver();
            z3::params pr(c); pr.set("timeout", ms); s.set(pr);
            for (E e : cs) s.add(B.boolM(e));
            if (abstract) { std::unordered_map<uint32_t, bool> seen; B.pdone.clear(); for (E e : cs) B.collect(e, seen, s); }
            auto r = s.check();
            if (r == z3::unsat) { res = UNSAT; if (abstract) ++st.bvAbs; return; }
            if (r != z3::sat) return;
            z3::model m = s.get_model();
            auto mm = std::make_shared<Model>();
            mm->v.resize(X.syms.size());
            for (size_t i = 0; i < X.syms.size(); ++i) if (used.test(i)) {
                z3::expr v = m.eval(B.tr(X.symE[i]), true);
                uint64_t u = 0; if (v.is_numeral_u64(u)) mm->v[i] = u;
            }
            if (!satisfied(*mm, cs)) { if (abstract) return; fprintf(stderr, "[solver] model does not satisfy the query\n"); return; }
            cand = mm; res = SAT;
        } catch (z3::exception & ex) { fprintf(stderr, "[solver] z3: %s\n", ex.msg()); }
    };
    auto tryInc = [&](unsigned ms) {
        ++st.bv;
        try {
            z3::context & c = p->bv.ctx;
            if (!p->inc || p->incUses > 400) { p->inc.reset(new z3::solver(c, "QF_BV")); p->lits.clear(); p->incUses = 0; }
            ++p->incUses;
            z3::solver & s = *p->inc;
            z3::params pr(c); pr.set("timeout", ms); s.set(pr);
            z3::expr_vector as(c);
            for (E e : cs) {
                auto it = p->lits.find(e->id);
                if (it == p->lits.end()) {
                    z3::expr l = c.bool_const(("l" + std::to_string(e->id)).c_str());
                    s.add(z3::implies(l, p->bv.boolM(e)));
                    it = p->lits.emplace(e->id, l).first;
                }
                as.push_back(it->second);
            }
            auto r = s.check(as);
            if (r == z3::unsat) { res = UNSAT; return; }
            if (r != z3::sat) return;
            z3::model m = s.get_model();
            auto mm = std::make_shared<Model>();
            mm->v.resize(X.syms.size());
            for (size_t i = 0; i < X.syms.size(); ++i) if (used.test(i)) {
                z3::expr v = m.eval(p->bv.tr(X.symE[i]), true);
                uint64_t u = 0; if (v.is_numeral_u64(u)) mm->v[i] = u;
            }
            if (!satisfied(*mm, cs)) { fprintf(stderr, "[solver] model does not satisfy the query\n"); return; }
            cand = mm; res = SAT;
        } catch (z3::exception & ex) { fprintf(stderr, "[solver] z3: %s\n", ex.msg()); p->inc.reset(); }
    };
    auto tryLIA = [&](unsigned ms) {
        ++st.lia;
        try {
            LiaTr & L = p->lia;
            z3::solver s(L.ctx);
            z3::params pr(L.ctx); pr.set("timeout", ms); s.set(pr);
            std::vector<uint32_t> work;
            bool triv = false;
            for (E e : cs) { auto t = L.boolTr(e); if (t.e.is_false()) triv = true; s.add(t.e); work.insert(work.end(), t.deps.begin(), t.deps.end()); }
            if (triv) { ++st.liaUnsat; res = UNSAT; return; }
            std::set<uint32_t> seen;
            while (!work.empty()) {
                uint32_t a = work.back(); work.pop_back();
                if (!seen.insert(a).second) continue;
                s.add(L.atoms[a].v >= L.num(L.atoms[a].lo)); s.add(L.atoms[a].v <= L.num(L.atoms[a].hi));
                for (auto & d : L.atoms[a].defs) s.add(d);
                for (auto d : L.atoms[a].deps) work.push_back(d);
            }
            auto r = s.check();
            if (r == z3::unsat) { ++st.liaUnsat; res = UNSAT; return; }
            if (r != z3::sat) return;
            z3::model m = s.get_model();
            auto mm = std::make_shared<Model>();
            mm->v.resize(X.syms.size());
            if (base) for (size_t i = 0; i < X.syms.size(); ++i) mm->v[i] = base->symVal(i);
            for (auto a : seen) if (L.atoms[a].sym >= 0) {
                z3::expr v = m.eval(L.atoms[a].v, true);
                uint64_t u = 0; if (v.is_numeral_u64(u)) mm->v[L.atoms[a].sym] = u;
            }
            if (satisfied(*mm, cs)) { ++st.liaSat; cand = mm; res = SAT; }
        } catch (z3::exception & ex) { fprintf(stderr, "[solver] z3: %s\n", ex.msg()); }
    };
    if (verbose > 1) { fprintf(stderr, "[query] %zu constraints hard=%u\n", cs.size(), hd); if (verbose > 2) for (E c : cs) fprintf(stderr, "   %s\n", show(c, 5).c_str()); }
    if (hd & 7) {
        if (liaFirst || (hd & 1)) {
            tryBV(quickMs / 4, true);
            if (res == UNKNOWN) tryLIA(quickMs);
            if (res == UNKNOWN) tryBV(quickMs);
        } else {
            tryBV(quickMs / 4, true);
            if (res == UNKNOWN) tryBV(quickMs / 3);
            if (res == UNKNOWN) tryLIA(quickMs);
        }
        if (res == UNKNOWN && important && (hd & 5)) tryBV(longMs / 2, true);
        if (res == UNKNOWN && important) tryLIA(liaMs);
        if (res == UNKNOWN && important) tryBV(longMs);
    } else {
        if (incremental) tryInc(quickMs);
        if (res == UNKNOWN) tryBV(quickMs * 2);
        if (res == UNKNOWN) tryLIA(quickMs);
        if (res == UNKNOWN && important) tryBV(longMs);
    }
    double dt = now() - t0;
    if (dt > 1 && getenv("SYMX_SLOW")) for (E c : cs) fprintf(stderr, "   slow %.1f: %s\n", dt, show(c, 12).c_str());
    st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
    if (verbose) fprintf(stderr, "[query] %s %.3fs hard=%u n=%zu\n", res == SAT ? "sat" : res == UNSAT ? "unsat" : "unknown", dt, hd, cs.size());
    if (res == SAT) { ++st.sat; out = overlay(*cand); p->recent.push_front(out); if (p->recent.size() > 12) p->recent.pop_back(); }
    else if (res == UNSAT) ++st.unsat; else ++st.unknown;
    p->cache.emplace(h, Impl::CacheE{cs, res, out});
    return res;
}

#include <map>
#include "expr.h"
#include <algorithm>
#include <llvm/ADT/SmallString.h>
#include <unistd.h>

ExprCtx X;

static inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

APInt foldOp(Op op, unsigned w, const APInt & a, const APInt & b) {
    switch (op) {
    case ADD: return a + b;
    case SUB: return a - b;
    case MUL: return a * b;
    case UDIV: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
    case UREM: return b.isZero() ? a : a.urem(b);
    case SDIV: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
    case SREM: return b.isZero() ? a : a.srem(b);
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b.uge(w) ? APInt(w, 0) : a.shl((unsigned)b.getZExtValue());
    case LSHR: return b.uge(w) ? APInt(w, 0) : a.lshr((unsigned)b.getZExtValue());
    case ASHR: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr((unsigned)b.getZExtValue());
    case EQ: return APInt(1, a == b);
    case ULT: return APInt(1, a.ult(b));
    case ULE: return APInt(1, a.ule(b));
    case SLT: return APInt(1, a.slt(b));
    case SLE: return APInt(1, a.sle(b));
    default: abort();
    }
}
// fast 64-bit version
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static uint64_t fold64(Op op, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = maskOf(w);
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: { int64_t s = sx(a, w); return (uint64_t)(s >> (b >= w ? w - 1 : b)) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w);
    case SLE: return sx(a, w) <= sx(b, w);
    default: return foldOp(op, w, APInt(w, a), APInt(w, b)).getZExtValue();
    }
}
static bool isCmp(Op o) { return o >= EQ && o <= SLE; }

const SymSet * ExprCtx::unite(E a, E b, E c) {
    const SymSet * s = a ? a->syms : nullptr;
    for (E e : {b, c}) {
        if (!e || !e->syms || e->syms == s) continue;
        if (!s) { s = e->syms; continue; }
        SymSet u = *s; u.add(*e->syms);
        if (u == *s) continue;
        if (u == *e->syms) { s = e->syms; continue; }
        sets.push_back(u); s = &sets.back();
    }
    return s;
}

E ExprCtx::mk(Op op, unsigned w, E a, E b, E c, unsigned lo) {
    uint64_t h = mix(mix(mix(mix(mix(op, w), a ? a->id + 1 : 0), b ? b->id + 1 : 0), c ? c->id + 1 : 0), lo);
    auto r = table.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
        E e = it->second;
        if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->lo == lo && op != CONST) return e;
    }
    auto n = std::make_unique<Expr>();
    n->op = op; n->w = w; n->a = a; n->b = b; n->c = c; n->lo = lo; n->hash = h; n->id = all.size();
    n->cv = 0; n->big = nullptr; n->ctree = 0;
    n->syms = unite(a, b, c);
    n->mn = 0; n->mx = maskOf(w); n->kz = w < 64 ? ~maskOf(w) : 0;
    if (w <= 64) {
        uint64_t m = maskOf(w), kz = 0;
        switch (op) {
        case ADD: { uint64_t s; if (!__builtin_add_overflow(a->mx, b->mx, &s) && s <= m) { n->mn = a->mn + b->mn; n->mx = s; }
            uint64_t tz = 0; { unsigned z = std::min(__builtin_ctzll(~a->kz | (1ull << 63)), __builtin_ctzll(~b->kz | (1ull << 63))); tz = z ? ((1ull << z) - 1) : 0; } kz |= tz; break; }
        case SUB: if (a->mn >= b->mx) { n->mn = a->mn - b->mx; n->mx = a->mx - b->mn; } break;
        case MUL: { uint64_t s; if (!__builtin_mul_overflow(a->mx, b->mx, &s) && s <= m) { n->mn = a->mn * b->mn; n->mx = s; } break; }
        case UDIV: if (b->mn) { n->mn = a->mn / b->mx; n->mx = a->mx / b->mn; } break;
        case UREM: if (b->mn) n->mx = std::min(a->mx, b->mx - 1); else n->mx = std::max(a->mx, b->mx); n->mx &= m; break;
        case AND: kz = a->kz | b->kz; n->mx = std::min(a->mx, b->mx); break;
        case OR: kz = a->kz & b->kz; n->mn = std::max(a->mn, b->mn); break;
        case XOR: kz = a->kz & b->kz; break;
        case LSHR: n->mx = a->mx; break;
        case ITE: n->mn = std::min(b->mn, c->mn); n->mx = std::max(b->mx, c->mx); kz = b->kz & c->kz; break;
        case CONCAT: { unsigned l = b->w; n->mn = (l >= 64 ? 0 : a->mn << l) | b->mn; n->mx = (l >= 64 ? 0 : a->mx << l) | b->mx;
            kz = (a->kz << l) | (b->kz & maskOf(l)); break; }
        case EXTRACT: if (a->w <= 64) {
                kz = a->kz >> lo;
                if (lo + w == a->w) { n->mn = a->mn >> lo; n->mx = a->mx >> lo; }
                else if ((a->mx >> lo) <= m) { n->mn = a->mn >> lo; n->mx = a->mx >> lo; }
            } break;
        case ZEXT: n->mn = a->mn; n->mx = a->mx; kz = a->kz | ~maskOf(a->w); break;
        default: break;
        }
        uint64_t hi = n->mx ? ~maskOf(64 - __builtin_clzll(n->mx)) : ~0ull;
        n->kz |= kz | hi;
        n->mx &= ~n->kz & m ? n->mx : 0;
        if (n->mx > (~n->kz & m)) n->mx = ~n->kz & m;
    }
    if (op == ITE) {
        unsigned l = (b->isC() ? 1 : b->ctree), r2 = (c->isC() ? 1 : c->ctree);
        if (l && r2 && l + r2 <= 40) n->ctree = l + r2;
    }
    E e = n.get();
    all.push_back(std::move(n));
    table.emplace(h, e);
    return e;
}

E ExprCtx::konst(unsigned w, uint64_t v) {
    if (w > 64) return konst(APInt(w, v));
    v &= maskOf(w);
    uint64_t h = mix(mix(mix(777, w), v), 5);
    auto r = table.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) if (it->second->op == CONST && it->second->w == w && it->second->cv == v) return it->second;
    auto n = std::make_unique<Expr>();
    memset(n.get(), 0, sizeof(Expr));
    n->op = CONST; n->w = w; n->cv = v; n->mn = n->mx = v; n->kz = ~v; n->hash = h; n->id = all.size();
    E e = n.get(); all.push_back(std::move(n)); table.emplace(h, e);
    return e;
}
E ExprCtx::konst(const APInt & v) {
    unsigned w = v.getBitWidth();
    if (w <= 64) return konst(w, v.getZExtValue());
    uint64_t h = mix(778, w);
    for (unsigned i = 0; i < v.getNumWords(); ++i) h = mix(h, v.getRawData()[i]);
    auto r = table.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) if (it->second->op == CONST && it->second->w == w && *it->second->big == v) return it->second;
    auto n = std::make_unique<Expr>();
    memset(n.get(), 0, sizeof(Expr));
    bigs.push_back(v);
    n->op = CONST; n->w = w; n->big = &bigs.back(); n->hash = h; n->id = all.size();
    E e = n.get(); all.push_back(std::move(n)); table.emplace(h, e);
    return e;
}
E ExprCtx::sym(const std::string & name, unsigned w, uint64_t hi) {
    if (syms.size() >= MAX_SYMS) { fprintf(stderr, "too many symbols\n"); _exit(3); }
    hi &= maskOf(w);
    syms.push_back({name, w, nullptr});
    auto n = std::make_unique<Expr>();
    memset(n.get(), 0, sizeof(Expr));
    n->op = SYM; n->w = w; n->lo = syms.size() - 1; n->mx = hi; n->kz = hi ? ~maskOf(64 - __builtin_clzll(hi)) : ~0ull; n->id = all.size();
    n->hash = mix(999, n->lo);
    SymSet s; s.set(n->lo); sets.push_back(s); n->syms = &sets.back();
    E e = n.get(); all.push_back(std::move(n));
    symE.push_back(e);
    if (hi != maskOf(w)) { E k = konst(w, hi); syms.back().range = mk(ULE, 1, e, k, nullptr, 0); } // not simplified: the range is a fact of the symbol
    return e;
}

void ExprCtx::cuts(E x, unsigned off, std::vector<unsigned> & out) {
    switch (x->op) {
    case CONCAT: cuts(x->b, off, out); out.push_back(off + x->b->w); cuts(x->a, off + x->b->w, out); break;
    case ZEXT: cuts(x->a, off, out); out.push_back(off + x->a->w); break;
    case CONST: { // transitions between zero runs and non-zero runs (byte granular)
        APInt v = x->ap();
        bool prev = false;
        for (unsigned i = 0; i < x->w; i += 8) {
            unsigned n = std::min(8u, x->w - i);
            bool nz = !v.extractBits(n, i).isZero();
            if (i && nz != prev) out.push_back(off + i);
            prev = nz;
        }
        break; }
    default: break;
    }
}
static bool isZeroC(E e) { return e->isC() && (e->w <= 64 ? e->cv == 0 : e->big->isZero()); }
static bool isOnesC(E e) { return e->isC() && (e->w <= 64 ? e->cv == maskOf(e->w) : e->big->isAllOnes()); }
static bool isOneC(E e) { return e->isC() && (e->w <= 64 ? e->cv == 1 : e->big->isOne()); }

E ExprCtx::tryPieces(E a, E b) {
    if (a->op != CONCAT && a->op != ZEXT && a->op != CONST) return nullptr;
    if (b->op != CONCAT && b->op != ZEXT && b->op != CONST) return nullptr;
    std::vector<unsigned> cs;
    cuts(a, 0, cs); cuts(b, 0, cs);
    cs.push_back(0); cs.push_back(a->w);
    std::sort(cs.begin(), cs.end());
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<E> parts;
    for (size_t i = 0; i + 1 < cs.size(); ++i) {
        unsigned lo = cs[i], w = cs[i + 1] - lo;
        E pa = extract(a, lo, w), pb = extract(b, lo, w);
        if (isZeroC(pa)) parts.push_back(pb);
        else if (isZeroC(pb)) parts.push_back(pa);
        else return nullptr;
    }
    E r = parts[0];
    for (size_t i = 1; i < parts.size(); ++i) r = concat(parts[i], r);
    return r;
}

E ExprCtx::lnot(E x) {
    if (x->isC()) return konst(1, !x->cv);
    switch (x->op) {
    case ULT: return bin(ULE, x->b, x->a);
    case ULE: return bin(ULT, x->b, x->a);
    case SLT: return bin(SLE, x->b, x->a);
    case SLE: return bin(SLT, x->b, x->a);
    case XOR: if (isOneC(x->b)) return x->a; break;
    default: break;
    }
    return mk(XOR, 1, x, konst(1, 1), nullptr, 0);
}

static E pushCtree(Op op, E t, E k, bool treeLeft) {
    if (t->isC()) return treeLeft ? X.bin(op, t, k) : X.bin(op, k, t);
    E l = pushCtree(op, t->b, k, treeLeft), r = pushCtree(op, t->c, k, treeLeft);
    return X.ite(t->a, l, r);
}

// e as a sum k + coef*term of unsigned values without wrap-around
struct Lin { std::map<uint32_t, std::pair<E, uint64_t>> t; uint64_t k = 0; unsigned steps = 0; };
static bool linear(E e, uint64_t f, Lin & l) {
    if (e->w > 64 || ++l.steps > 200) return false;
    uint64_t m = maskOf(e->w), s, t;
    switch (e->op) {
    case CONST: return !__builtin_mul_overflow(e->cv, f, &s) && !__builtin_add_overflow(l.k, s, &l.k);
    case ZEXT: return linear(e->a, f, l);
    case ADD: if (!__builtin_add_overflow(e->a->mx, e->b->mx, &s) && s <= m) return linear(e->a, f, l) && linear(e->b, f, l); break;
    case MUL: if (e->b->isC() && !__builtin_mul_overflow(e->a->mx, e->b->cv, &s) && s <= m && !__builtin_mul_overflow(f, e->b->cv, &t)) return linear(e->a, t, l); break;
    case SHL: if (e->b->isC() && e->b->cv < e->w && e->a->mx <= (m >> e->b->cv) && f <= (~0ull >> e->b->cv)) return linear(e->a, f << e->b->cv, l); break;
    case EXTRACT: if (e->lo == 0 && e->a->w <= 64 && e->a->mx <= m) return linear(e->a, f, l); break;
    default: break;
    }
    auto & x = l.t[e->id];
    x.first = e;
    return !__builtin_add_overflow(x.second, f, &x.second);
}
E ExprCtx::divLinear(Op op, E a, E b) {
    if (a->w > 64 || !b->isC() || b->cv < 2) return nullptr;
    E top = a;
    while (top->op == ZEXT || (top->op == EXTRACT && top->lo == 0)) top = top->a;
    if (top->op != ADD && top->op != MUL && top->op != SHL) return nullptr;
    Lin l;
    if (!linear(a, 1, l)) return nullptr;
    uint64_t c = b->cv, restMax = l.k % c;
    bool any = l.k >= c;
    for (auto & [id, tc] : l.t) {
        uint64_t r = tc.second % c, p;
        if (tc.second >= c) any = true;
        if (__builtin_mul_overflow(r, tc.first->mx, &p) || __builtin_add_overflow(restMax, p, &restMax)) return nullptr;
    }
    if (restMax >= c || !any) return nullptr;
    E r = konst(a->w, op == UDIV ? l.k / c : l.k % c);
    for (auto & [id, tc] : l.t) {
        uint64_t k = op == UDIV ? tc.second / c : tc.second % c;
        if (k) r = bin(ADD, r, bin(MUL, resize(tc.first, a->w), konst(a->w, k)));
    }
    return r;
}
// both values fit in a few bits (a division by zero never gets here unguarded, so its result may differ)
static unsigned smallBits(E a, E b) {
    if (a->w > 64 || b->isC()) return 0;
    uint64_t m = a->mx | b->mx;
    unsigned k = m ? 64 - __builtin_clzll(m) : 1;
    return k <= 16 && k < a->w ? k : 0;
}
E ExprCtx::bin(Op op, E a, E b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
    if (a->isC() && b->isC()) {
        if (w <= 64) return konst(isCmp(op) ? 1 : w, fold64(op, w, a->cv, b->cv));
        return konst(foldOp(op, w, a->ap(), b->ap()));
    }
    if (a->ctree && b->isC()) return pushCtree(op, a, b, true);
    if (b->ctree && a->isC()) return pushCtree(op, b, a, false);
    switch (op) {
    case ADD: {
        if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
        if (isZeroC(b)) return a;
        if (w == 1) return bin(XOR, a, b);
        if (b->isC() && a->op == ADD && a->b->isC()) return bin(ADD, a->a, bin(ADD, a->b, b));
        if (b->isC() && a->op == SUB && a->a->isC()) return bin(SUB, bin(ADD, a->a, b), a->b);
        if (a->op == SUB && a->b == b) return a->a;
        if (b->op == SUB && b->b == a) return b->a;
        if ((w <= 64 && ((a->kz | b->kz) & maskOf(w)) == maskOf(w)) || w > 64)
            if (E r = tryPieces(a, b)) return r;
        if (smallBits(a, b)) {
            auto mul = [](E e) { while (e->op == ZEXT) e = e->a; return e->op == MUL; };
            uint64_t m = a->mx + b->mx; unsigned k = m ? 64 - __builtin_clzll(m) : 1;
            if (k <= 16 && k < w && (mul(a) || mul(b))) { E x = extract(a, 0, k), y = extract(b, 0, k); return zext(bin(ADD, x, y), w); }
        }
        break; }
    case SUB:
        if (isZeroC(b)) return a;
        if (a == b) return konst(w, 0);
        if (w == 1) return bin(XOR, a, b);
        if (b->isC()) return bin(ADD, a, w <= 64 ? konst(w, -b->cv) : konst(-b->ap()));
        if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && a->b == b) return a->a;
        if (a->op == ADD && a->b->isC() && b->op == ADD && b->b->isC() && a->a == b->a) return bin(SUB, a->b, b->b);
        if (isZeroC(a) && b->op == SUB) return bin(SUB, b->b, b->a);
        break;
    case MUL:
        if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
        if (isZeroC(b)) return b;
        if (isOneC(b)) return a;
        if (w == 1) return bin(AND, a, b);
        if (b->isC()) {
            APInt v = b->ap();
            if (v.isPowerOf2()) return bin(SHL, a, w <= 64 ? konst(w, v.logBase2()) : konst(APInt(w, v.logBase2())));
        }
        else if (smallBits(a, b)) { // the product fits in a few bits
            uint64_t m = a->mx * b->mx; unsigned k = m ? 64 - __builtin_clzll(m) : 1;
            if (k <= 16 && k < w) { auto fit = [&](E e) { return extract(e, 0, k); }; return zext(bin(MUL, fit(a), fit(b)), w); }
        }
        break;
    case UDIV:
        if (E r = divLinear(op, a, b)) return r;
        if (isOneC(b)) return a;
        if (b->isC()) {
            APInt v = b->ap();
            if (v.isPowerOf2()) return bin(LSHR, a, konst(APInt(w, v.logBase2())));
            if (w <= 64 && b->cv && a->mx < b->cv) return konst(w, 0);
        }
        if (w <= 64 && a->mx < b->mn) return konst(w, 0);
        if (a->op == ZEXT && b->isC() && w <= 64 && b->cv <= maskOf(a->a->w) && b->cv)
            return zext(bin(UDIV, a->a, konst(a->a->w, b->cv)), w);
        if (unsigned k = smallBits(a, b)) return zext(bin(UDIV, extract(a, 0, k), extract(b, 0, k)), w);
        break;
    case UREM:
        if (E r = divLinear(op, a, b)) return r;
        if (isOneC(b)) return konst(w, 0);
        if (b->isC()) {
            APInt v = b->ap();
            if (v.isPowerOf2()) return zext(extract(a, 0, v.logBase2()), w);
        }
        if (w <= 64 && a->mx < b->mn) return a;
        if (a->op == ZEXT && b->isC() && w <= 64 && b->cv <= maskOf(a->a->w) && b->cv)
            return zext(bin(UREM, a->a, konst(a->a->w, b->cv)), w);
        if (unsigned k = smallBits(a, b)) return zext(bin(UREM, extract(a, 0, k), extract(b, 0, k)), w);
        break;
    case SDIV:
        if (w <= 64 && a->mx <= maskOf(w) >> 1 && b->mx <= maskOf(w) >> 1) return bin(UDIV, a, b);
        if (isOneC(b)) return a;
        break;
    case SREM:
        if (w <= 64 && a->mx <= maskOf(w) >> 1 && b->mx <= maskOf(w) >> 1) return bin(UREM, a, b);
        break;
    case AND:
        if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
        if (isZeroC(b)) return b;
        if (isOnesC(b)) return a;
        if (a == b) return a;
        if (b->isC() && w > 1) {
            APInt v = b->ap();
            if (v.isMask()) return zext(extract(a, 0, v.countr_one()), w);
            // a few runs: build from pieces
            unsigned runs = 0, i = 0;
            std::vector<std::pair<unsigned, unsigned>> segs;
            while (i < w) { bool bit = v[i]; unsigned j = i; while (j < w && v[j] == bit) ++j; segs.push_back({i, j - i}); i = j; if (bit) ++runs; }
            if (runs <= 2) {
                E r = nullptr;
                for (auto [lo, n] : segs) { E p = v[lo] ? extract(a, lo, n) : konst(APInt(n, 0)); r = r ? concat(p, r) : p; }
                return r;
            }
        }
        if (w == 1) {
            if (lnot(a) == b) return fls();
            if (b->op == AND && (b->a == a || b->b == a)) return b;
            if (a->op == AND && (a->a == b || a->b == b)) return a;
        }
        if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return concat(bin(AND, a->a, b->a), bin(AND, a->b, b->b));
        if (w > 1 && a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return zext(bin(AND, a->a, b->a), w);
        if (w > 1 && w <= 64 && ((a->kz | b->kz) & maskOf(w)) == maskOf(w)) return konst(w, 0);
        break;
    case OR:
        if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
        if (isZeroC(b)) return a;
        if (isOnesC(b)) return b;
        if (a == b) return a;
        if (w == 1) {
            if (lnot(a) == b) return tru();
            if (b->op == OR && (b->a == a || b->b == a)) return b;
            if (a->op == OR && (a->a == b || a->b == b)) return a;
            break;
        }
        if (E r = tryPieces(a, b)) return r;
        if (b->isC()) { // keep runs of ones, pass the rest
            APInt v = b->ap();
            std::vector<std::pair<unsigned, unsigned>> segs; unsigned runs = 0, i = 0;
            while (i < w) { bool bit = v[i]; unsigned j = i; while (j < w && v[j] == bit) ++j; segs.push_back({i, j - i}); i = j; if (bit) ++runs; }
            if (runs <= 2) {
                E r = nullptr;
                for (auto [lo, n] : segs) { E p = v[lo] ? konst(APInt::getAllOnes(n)) : extract(a, lo, n); r = r ? concat(p, r) : p; }
                return r;
            }
        }
        if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return concat(bin(OR, a->a, b->a), bin(OR, a->b, b->b));
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return zext(bin(OR, a->a, b->a), w);
        break;
    case XOR:
        if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
        if (isZeroC(b)) return a;
        if (a == b) return konst(APInt(w, 0));
        if (w == 1 && b->isC()) return lnot(a);
        if (b->isC() && a->op == XOR && a->b->isC()) return bin(XOR, a->a, bin(XOR, a->b, b));
        if (w > 1) {
            if (E r = tryPieces(a, b)) return r;
            if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return concat(bin(XOR, a->a, b->a), bin(XOR, a->b, b->b));
            if (a->op == CONCAT && b->isC()) return concat(bin(XOR, a->a, extract(b, a->b->w, a->a->w)), bin(XOR, a->b, extract(b, 0, a->b->w)));
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return zext(bin(XOR, a->a, b->a), w);
            if (a->op == ZEXT && b->isC()) return concat(extract(b, a->a->w, w - a->a->w), bin(XOR, a->a, extract(b, 0, a->a->w)));
        }
        break;
    case SHL: case LSHR: case ASHR:
        if (b->isC()) {
            APInt v = b->ap();
            if (v.isZero()) return a;
            if (v.uge(w)) { if (op == ASHR) return sext(extract(a, w - 1, 1), w); return konst(APInt(w, 0)); }
            unsigned n = v.getZExtValue();
            if (op == SHL) return concat(extract(a, 0, w - n), konst(APInt(n, 0)));
            if (op == LSHR) return zext(extract(a, n, w - n), w);
            return sext(extract(a, n, w - n), w);
        }
        if (isZeroC(a)) return a;
        break;
    case EQ:
        if (a == b) return tru();
        if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
        if (w == 1) { if (b->isC()) return b->cv ? a : lnot(a); if (lnot(a) == b) return fls(); }
        if (w <= 64 && (a->mx < b->mn || b->mx < a->mn)) return fls();
        if (b->isC()) {
            if (w <= 64 && (b->cv & a->kz)) return fls();
            if (a->op == ZEXT) { APInt v = b->ap(); if (v.getActiveBits() > a->a->w) return fls(); return bin(EQ, a->a, konst(v.trunc(a->a->w))); }
            if (a->op == SEXT) { APInt v = b->ap(); APInt t = v.trunc(a->a->w); if (t.sext(w) != v) return fls(); return bin(EQ, a->a, konst(t)); }
            if (a->op == CONCAT) return land(bin(EQ, a->a, extract(b, a->b->w, a->a->w)), bin(EQ, a->b, extract(b, 0, a->b->w)));
            if (a->op == ADD && a->b->isC()) return bin(EQ, a->a, bin(SUB, b, a->b));
            if (a->op == SUB && a->a->isC()) return bin(EQ, a->b, bin(SUB, a->a, b));
            if (a->op == SUB && isZeroC(b)) return bin(EQ, a->a, a->b);
            if (a->op == XOR && a->b->isC()) return bin(EQ, a->a, bin(XOR, a->b, b));
            if (a->op == XOR && isZeroC(b)) return bin(EQ, a->a, a->b);
            if (a->op == ITE && a->b->isC()) {
                if (a->b != b) return land(lnot(a->a), bin(EQ, a->c, b));
                return lor(a->a, bin(EQ, a->c, b));
            }
            if (a->op == ITE && a->c->isC()) {
                if (a->c != b) return land(a->a, bin(EQ, a->b, b));
                return lor(lnot(a->a), bin(EQ, a->b, b));
            }
            if (a->op == OR && isZeroC(b)) return land(bin(EQ, a->a, b), bin(EQ, a->b, b));
        } else {
            if (a->op == ZEXT && b->op == ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return bin(EQ, zext(a->a, n), zext(b->a, n)); }
            if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return land(bin(EQ, a->a, b->a), bin(EQ, a->b, b->b));
            if ((a->op == CONCAT && (b->op == CONCAT || b->op == ZEXT)) || (a->op == ZEXT && b->op == CONCAT)) {
                std::vector<unsigned> cs; cuts(a, 0, cs); cuts(b, 0, cs); cs.push_back(0); cs.push_back(w);
                std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
                E r = tru();
                for (size_t i = 0; i + 1 < cs.size(); ++i) r = land(r, bin(EQ, extract(a, cs[i], cs[i + 1] - cs[i]), extract(b, cs[i], cs[i + 1] - cs[i])));
                return r;
            }
            if (a->op == ADD && a->a == b) return bin(EQ, a->b, konst(w, 0));
            if (a->op == ADD && a->b == b) return bin(EQ, a->a, konst(w, 0));
            if (b->op == ADD && b->a == a) return bin(EQ, b->b, konst(w, 0));
            if (b->op == ADD && b->b == a) return bin(EQ, b->a, konst(w, 0));
        }
        break;
    case ULT:
        if (a == b) return fls();
        if (isZeroC(b)) return fls();
        if (isOneC(b)) return bin(EQ, a, konst(APInt(w, 0)));
        if (isOnesC(a)) return fls();
        if (isZeroC(a)) return lnot(bin(EQ, b, a));
        if (w <= 64) { if (a->mx < b->mn) return tru(); if (a->mn >= b->mx) return fls(); }
        if (a->op == ZEXT && b->op == ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return bin(ULT, zext(a->a, n), zext(b->a, n)); }
        if (a->op == ZEXT && b->isC()) { APInt v = b->ap(); if (v.getActiveBits() > a->a->w) return tru(); return bin(ULT, a->a, konst(v.trunc(a->a->w))); }
        if (b->op == ZEXT && a->isC()) { APInt v = a->ap(); if (v.getActiveBits() > b->a->w) return fls(); return bin(ULT, konst(v.trunc(b->a->w)), b->a); }
        if (w == 1) return land(lnot(a), b);
        if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w && a->a == b->a) return bin(ULT, a->b, b->b);
        break;
    case ULE:
        if (a == b) return tru();
        if (isZeroC(a)) return tru();
        if (isOnesC(b)) return tru();
        if (isZeroC(b)) return bin(EQ, a, b);
        if (isOneC(a)) return lnot(bin(EQ, b, konst(APInt(w, 0))));
        if (w <= 64) { if (a->mx <= b->mn) return tru(); if (a->mn > b->mx) return fls(); }
        if (a->op == ZEXT && b->op == ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return bin(ULE, zext(a->a, n), zext(b->a, n)); }
        if (a->op == ZEXT && b->isC()) { APInt v = b->ap(); if (v.getActiveBits() > a->a->w) return tru(); return bin(ULE, a->a, konst(v.trunc(a->a->w))); }
        if (b->op == ZEXT && a->isC()) { APInt v = a->ap(); if (v.getActiveBits() > b->a->w) return fls(); return bin(ULE, konst(v.trunc(b->a->w)), b->a); }
        if (w == 1) return lor(lnot(a), b);
        if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w && a->a == b->a) return bin(ULE, a->b, b->b);
        break;
    case SLT: case SLE: {
        if (a == b) return op == SLT ? fls() : tru();
        if (w <= 64) {
            uint64_t h = maskOf(w) >> 1;
            bool an = a->mx <= h, bn = b->mx <= h, ag = a->mn > h, bg = b->mn > h;
            if ((an && bn) || (ag && bg)) return bin(op == SLT ? ULT : ULE, a, b);
            if (ag && bn) return tru();
            if (an && bg) return fls();
        }
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
        // sign test
        if (op == SLT && isZeroC(b)) return extract(a, w - 1, 1);
        if (op == SLE && isZeroC(a)) return lnot(extract(b, w - 1, 1));
        if (op == SLT && isOnesC(a)) return lnot(extract(b, w - 1, 1));
        if (op == SLE && isOnesC(b)) return extract(a, w - 1, 1);
        break; }
    default: break;
    }
    return mk(op, isCmp(op) ? 1 : w, a, b, nullptr, 0);
}

E ExprCtx::ite(E c, E a, E b) {
    if (c->isC()) return c->cv ? a : b;
    if (a == b) return a;
    if (c->op == XOR && isOneC(c->b)) return ite(c->a, b, a);
    if (a->w == 1) {
        if (a->isC() && b->isC()) return a->cv ? c : lnot(c);
        if (a->isC()) return a->cv ? lor(c, b) : land(lnot(c), b);
        if (b->isC()) return b->cv ? lor(lnot(c), a) : land(c, a);
        if (c == a) return lor(a, b);
        if (c == b) return land(a, b);
    }
    if (a->op == ITE && a->a == c) return ite(c, a->b, b);
    if (b->op == ITE && b->a == c) return ite(c, a, b->c);
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return zext(ite(c, a->a, b->a), a->w);
    return mk(ITE, a->w, c, a, b, 0);
}

E ExprCtx::concat(E h, E l) {
    unsigned w = h->w + l->w;
    if (h->isC() && l->isC()) {
        if (w <= 64) return konst(w, (h->cv << l->w) | l->cv);
        return konst(h->ap().zext(w).shl(l->w) | l->ap().zext(w));
    }
    if (isZeroC(h)) return zext(l, w);
    if (h->op == EXTRACT && l->op == EXTRACT && h->a == l->a && h->lo == l->lo + l->w) return extract(h->a, l->lo, w);
    // h extracts on top of a full expression: extract(x, w_l..) over l == extract(x,0..) handled above; l full low part:
    if (h->op == EXTRACT && l->op == CONCAT && l->a->op == EXTRACT && h->a == l->a->a && h->lo == l->a->lo + l->a->w)
        return concat(extract(h->a, l->a->lo, h->w + l->a->w), l->b);
    if (h->op == CONCAT) return concat(h->a, concat(h->b, l)); // right-associate
    if (h->op == ZEXT) return zext(concat(h->a, l), w);
    if (l->op == CONCAT && h->isC() && l->a->isC()) return concat(concat(h, l->a), l->b);
    if (h->op == SEXT || (h->op == EXTRACT && h->a->op == SEXT)) {
        // sign copies on top of the value itself
        E s = h->op == SEXT ? h->a : h->a->a;
        if (h->op == EXTRACT && h->lo >= s->w - 1 && l == s) return sext(s, w);
        if (h->op == SEXT && s->w == 1 && s->op == EXTRACT && s->a == l && s->lo == l->w - 1) return sext(l, w);
    }
    return mk(CONCAT, w, h, l, nullptr, 0);
}

E ExprCtx::extract(E x, unsigned lo, unsigned w) {
    if (w == x->w) return x;
    if (w == 0 || lo + w > x->w) { fprintf(stderr, "bad extract\n"); abort(); }
    switch (x->op) {
    case CONST: if (x->w <= 64) return konst(w, x->cv >> lo); return konst(x->big->extractBits(w, lo));
    case EXTRACT: return extract(x->a, x->lo + lo, w);
    case CONCAT: {
        unsigned bw = x->b->w;
        if (lo >= bw) return extract(x->a, lo - bw, w);
        if (lo + w <= bw) return extract(x->b, lo, w);
        return concat(extract(x->a, 0, lo + w - bw), extract(x->b, lo, bw - lo)); }
    case ZEXT: {
        unsigned aw = x->a->w;
        if (lo >= aw) return konst(APInt(w, 0));
        if (lo + w <= aw) return extract(x->a, lo, w);
        return zext(extract(x->a, lo, aw - lo), w); }
    case SEXT: {
        unsigned aw = x->a->w;
        if (lo + w <= aw) return extract(x->a, lo, w);
        if (lo == 0) return sext(x->a, w);
        if (lo >= aw) return sext(extract(x->a, aw - 1, 1), w);
        return sext(extract(x->a, lo, aw - lo), w); }
    case AND: case OR: case XOR: return bin(x->op, extract(x->a, lo, w), extract(x->b, lo, w));
    case ITE:
        if (x->ctree || x->b->isC() || x->c->isC()) return ite(x->a, extract(x->b, lo, w), extract(x->c, lo, w));
        break;
    case ADD: case SUB: case MUL: {
        if (lo == 0) { // both operands zero/sign-extended from at most w bits: the narrow operation
            auto narrow = [&](E e) { return ((e->op == ZEXT || e->op == SEXT) && e->a->w <= w) || (e->isC()); };
            if (narrow(x->a) && narrow(x->b) && (x->a->isC() || x->b->isC()) && (x->op != MUL)) return bin(x->op, extract(x->a, 0, w), extract(x->b, 0, w));
            if (x->op == SUB && isZeroC(x->a)) return bin(SUB, extract(x->a, 0, w), extract(x->b, 0, w));
        }
        break; }
    default: break;
    }
    if (x->w <= 64) {
        uint64_t m = maskOf(w) << lo;
        if ((x->kz & m) == m) return konst(w, 0);
    }
    return mk(EXTRACT, w, x, nullptr, nullptr, lo);
}

E ExprCtx::zext(E x, unsigned w) {
    if (w == x->w) return x;
    if (x->isC()) { if (w <= 64) return konst(w, x->cv); return konst(x->ap().zext(w)); }
    if (x->op == ZEXT) return zext(x->a, w);
    if (x->ctree && x->ctree <= 8 && x->w > 1) return ite(x->a, zext(x->b, w), zext(x->c, w));
    return mk(ZEXT, w, x, nullptr, nullptr, 0);
}
E ExprCtx::sext(E x, unsigned w) {
    if (w == x->w) return x;
    if (x->isC()) return konst(x->ap().sext(w));
    if (x->op == SEXT) return sext(x->a, w);
    if (x->op == ZEXT) return zext(x->a, w);
    if (x->w > 1 && x->w <= 64 && (x->kz >> (x->w - 1) & 1)) return zext(x, w);
    if (x->ctree && x->ctree <= 8 && x->w > 1) return ite(x->a, sext(x->b, w), sext(x->c, w));
    return mk(SEXT, w, x, nullptr, nullptr, 0);
}

uint64_t Model::eval64(E e) {
    if (e->w > 64) return eval(e).getRawData()[0];
    switch (e->op) {
    case CONST: return e->cv;
    case SYM: return symVal(e->lo) & maskOf(e->w);
    default: break;
    }
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    uint64_t r;
    switch (e->op) {
    case ITE: r = eval64(e->a) ? eval64(e->b) : eval64(e->c); break;
    case CONCAT: r = (eval64(e->a) << e->b->w) | eval64(e->b); break;
    case EXTRACT: r = e->a->w <= 64 ? (eval64(e->a) >> e->lo) & maskOf(e->w) : eval(e->a).extractBits(e->w, e->lo).getZExtValue(); break;
    case ZEXT: r = eval64(e->a); break;
    case SEXT: r = (uint64_t)sx(eval64(e->a), e->a->w) & maskOf(e->w); break;
    default:
        if (e->a->w <= 64) r = fold64(e->op, e->a->w, eval64(e->a), eval64(e->b));
        else r = foldOp(e->op, e->a->w, eval(e->a), eval(e->b)).getZExtValue();
    }
    memo[e->id] = r;
    return r;
}
APInt Model::eval(E e) {
    if (e->w <= 64) return APInt(e->w, eval64(e));
    if (e->op == CONST) return *e->big;
    auto it = memoBig.find(e->id);
    if (it != memoBig.end()) return it->second;
    APInt r(e->w, 0);
    switch (e->op) {
    case ITE: r = eval64(e->a) ? eval(e->b) : eval(e->c); break;
    case CONCAT: r = eval(e->a).zext(e->w).shl(e->b->w) | eval(e->b).zext(e->w); break;
    case EXTRACT: r = eval(e->a).extractBits(e->w, e->lo); break;
    case ZEXT: r = eval(e->a).zext(e->w); break;
    case SEXT: r = eval(e->a).sext(e->w); break;
    default: r = foldOp(e->op, e->w, eval(e->a), eval(e->b));
    }
    memoBig.emplace(e->id, r);
    return r;
}

std::string show(E e, int depth) {
    static const char * n[] = {"const", "sym", "+", "-", "*", "udiv", "urem", "sdiv", "srem", "&", "|", "^", "shl", "lshr", "ashr",
                               "=", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext"};
    if (!e) return "null";
    if (e->op == CONST) { if (e->w <= 64) return std::to_string(e->cv) + ":" + std::to_string(e->w); llvm::SmallString<64> s; e->big->toString(s, 16, false); return "0x" + std::string(s.str()); }
    if (e->op == SYM) return X.syms[e->lo].name;
    if (!depth) return "#" + std::to_string(e->id);
    std::string r = std::string("(") + n[e->op];
    if (e->op == EXTRACT) r += "[" + std::to_string(e->lo + e->w - 1) + ":" + std::to_string(e->lo) + "]";
    if (e->op == ZEXT || e->op == SEXT) r += std::to_string(e->w);
    for (E k : {e->a, e->b, e->c}) if (k) r += " " + show(k, depth - 1);
    return r + ")";
}

// Hash-consed bit-vector expressions with simplifying constructors.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using llvm::APInt;

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct SymSet {
    static constexpr int W = 12;
    uint64_t w[W];
    SymSet() { memset(w, 0, sizeof w); }
    void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
    bool test(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; }
    bool any() const { for (auto x : w) if (x) return true; return false; }
    bool intersects(const SymSet & o) const { for (int i = 0; i < W; ++i) if (w[i] & o.w[i]) return true; return false; }
    void add(const SymSet & o) { for (int i = 0; i < W; ++i) w[i] |= o.w[i]; }
    bool operator==(const SymSet & o) const { return !memcmp(w, o.w, sizeof w); }
};
constexpr unsigned MAX_SYMS = SymSet::W * 64;

struct Expr {
    Op op;
    uint8_t ctree;      // >0: nested ITE whose leaves are constants (number of leaves)
    uint32_t w, lo, id; // lo: extract offset or symbol index
    const Expr *a, *b, *c;
    uint64_t cv;        // constant value when w <= 64
    uint64_t mn, mx;    // unsigned range when w <= 64
    uint64_t kz;        // known-zero bits when w <= 64
    uint64_t hash;
    const SymSet * syms;
    const APInt * big;  // constant value when w > 64
    bool isC() const { return op == CONST; }
    APInt ap() const { return w <= 64 ? APInt(w, cv) : *big; }
};
using E = const Expr *;

inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct SymInfo { std::string name; unsigned w; const Expr * range; };

struct ExprCtx {
    std::vector<std::unique_ptr<Expr>> all;
    std::unordered_multimap<uint64_t, E> table;
    std::deque<SymSet> sets;
    std::deque<APInt> bigs;
    std::vector<SymInfo> syms;
    std::vector<E> symE;

    E konst(unsigned w, uint64_t v);
    E konst(const APInt & v);
    E sym(const std::string & name, unsigned w, uint64_t hi = ~0ull); // 0 <= value <= hi
    E bin(Op op, E a, E b);
    E ite(E c, E a, E b);
    E concat(E hi, E lo);
    E extract(E x, unsigned lo, unsigned w);
    E zext(E x, unsigned w);
    E sext(E x, unsigned w);
    E lnot(E x); // 1-bit
    E land(E a, E b) { return bin(AND, a, b); }
    E lor(E a, E b) { return bin(OR, a, b); }
    E tru() { return konst(1, 1); }
    E fls() { return konst(1, 0); }
    E resize(E x, unsigned w) { return x->w == w ? x : x->w < w ? zext(x, w) : extract(x, 0, w); }

private:
    E mk(Op op, unsigned w, E a, E b, E c, unsigned lo);
    E divLinear(Op op, E a, E b);
    E tryPieces(E a, E b); // disjoint union of bits, or null
    void cuts(E x, unsigned off, std::vector<unsigned> & out);
    const SymSet * unite(E a, E b, E c);
};
extern ExprCtx X;

// constant folding of one operator (used by the constructors and by the evaluator)
APInt foldOp(Op op, unsigned w, const APInt & a, const APInt & b);

std::string show(E e, int depth = 6);

// an assignment of values to symbols, with a memo of evaluated expressions
struct Model {
    std::vector<uint64_t> v; // by symbol index (symbols are at most 64 bits wide); missing = 0
    std::unordered_map<uint32_t, uint64_t> memo;
    std::unordered_map<uint32_t, APInt> memoBig;
    uint64_t symVal(unsigned i) const { return i < v.size() ? v[i] : 0; }
    uint64_t eval64(E e);
    APInt eval(E e);
    bool truth(E e) { return eval64(e) != 0; }
};
using ModelP = std::shared_ptr<Model>;

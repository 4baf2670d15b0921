// Copies, aliasing, moves.
#include "mut.h"

static void fill(Args & g, uint32_t op, int m) {
    Num o;
    if (op >= 2 && op <= 4) { // products and quotients of unknowns are C02's and C04's
        static const uint32_t L[] = {0x89abcdef, 3, 0x80000001};
        if (m) o.b = build(L, m, true, 1, 0);
    } else mkLen(o, "o", m, FRESH);
    g.o = o.b;
    g.i = 0;
    if (op == 8 || op == 9 || (op >= 13 && op <= 15) || op == 30 || op == 31) g.i = mkI64("i").i;
    g.txt = op == 32 && pick("txt", 2) ? "0" : "-123456789abcdef01";
    for (auto & c : g.bin) c = op == 33 ? sym_u8("bin") : 0;
}
static BigInteger twin(const Num & a) { return build(a.l, a.n, a.neg, 1, 0); }
static void expectEq(const BigInteger & x, const BigInteger & y, int k, const char * id) {
    uint32_t d = (uint32_t)(x.isNegative() != y.isNegative()) | (uint32_t)(x.isZero() != y.isZero());
    for (int i = 0; i < k; ++i) {
        uint32_t g = x.get2sComplement(i), w = y.get2sComplement(i);
        sym_observe("limb", g);
        d |= g ^ w;
    }
    sym_assert(d == 0, id);
}

// copies made in every way; one side is changed by every operation, then once more; the other sides keep their value
extern "C" void unit_cow() {
    int n = sym_param("n", 2), m = sym_param("m", 1);
    uint32_t op = sym_param("lo", 0) + sym_choice("op", sym_param("hi", NMUT) - sym_param("lo", 0));
    Num a;
    mkLen(a, "a", n, pick("mode", NMODES));
    BigInteger c, d;
    uint32_t how = pick("how", 4);
    BigInteger e(a.b);
    if (how == 0) c = a.b;
    else if (how == 1) { BigInteger t(a.b); c = std::move(t); }
    else if (how == 2) { c = e; d = c; }
    else { c = 5; c += 3; c = a.b; (void)c.get2sComplement(1); d = +c; }
    if ((op == 3 || op == 4) && m == 0) return; // division by zero is C31's
    Args g; fill(g, op, m);
    BigInteger o2 = g.o;
    BigInteger alone = n ? twin(a) : BigInteger();
    BigInteger & x = pick("side", 2) ? c : a.b;
    BigInteger & y = &x == &c ? a.b : c;
    BigInteger r1 = mutate(x, op, g), r2 = mutate(alone, op, g);
    expectMag(y, a.v, n + 1, "other-side-magnitude");
    expect2s(y, a.v, n + 1, "other-side");
    expect2s(e, a.v, n + 1, "third-copy");
    if (how >= 2) expect2s(d, a.v, n + 1, "fourth-copy");
    expectEq(x, alone, n + m + 3, "same-as-alone");
    expectEq(r1, r2, n + 2, "returned-value");
    expectEq(g.o, o2, m + 1, "operand-unchanged");
    expectKept(a, "copy-unchanged");
    // the second write starts from the state the first one left; the operand may now share storage
    x += 1; alone += 1;
    y += 3;
    expectEq(x, alone, n + m + 3, "written-again");
    expectEq(g.o, o2, m + 1, "operand-unchanged-again");
    expect2s(e, a.v, n + 1, "third-copy-again");
    expect2s(y, a.v + 3, n + 1, "other-side-written");
}

// the same object, or a copy sharing its storage, on both sides
extern "C" void unit_alias() {
    int n = sym_param("n", 2);
    uint32_t op = pick("op", 10);
    Num a;
    mkLen(a, "a", n, pick("mode", NMODES));
    if ((op == 3 || op == 4) && n == 0) return; // division by zero is C31's
    bool copy = pick("copy", 2);
    BigInteger c = a.b;
    BigInteger & r = a.b;
    const BigInteger & o = copy ? c : a.b;
    I want = 0;
    switch (op) {
    case 0: r += o; want = a.v + a.v; break;
    case 1: r -= o; want = 0; break;
    case 2: r *= o; want = (I)mulMag(a.l, n, a.l, n); break;
    case 3: r /= o; want = 1; break;
    case 4: r %= o; want = 0; break;
    case 5: r &= o; want = a.v; break;
    case 6: r |= o; want = a.v; break;
    case 7: r ^= o; want = 0; break;
    case 8: r = o; want = a.v; break;
    default: r = std::move(const_cast<BigInteger &>(o)); want = a.v; break;
    }
    int k = op == 2 ? 2 * n + 1 : n + 1;
    if (op == 2) vhCached = false;
    if (op == 2) expectSM(a.b, false, (U)want, k, "value"); // a square: sign and magnitude
    else { expectMag(a.b, want, k, "value"); expect2s(a.b, want, k, "value"); }
    if (!(op == 9 && copy)) expectMag(copy ? c : a.b, copy ? a.v : want, k, "operand");
    if (!copy) expect2s(c, a.v, n + 1, "copy-unchanged");
    expectKept(a, "copy-unchanged");
    sym_assert(a.b == a.b && a.b <= a.b && a.b >= a.b && !(a.b != a.b) && !(a.b < a.b) && !(a.b > a.b), "self-comparison");
    // and the result can be written like any other
    if (op != 2) { a.b += 1; expectMag(a.b, want + 1, k + 1, "then-add"); }
}
// free operators with both operands the same object, result assigned over it
extern "C" void unit_aliasfree() {
    int n = sym_param("n", 2);
    uint32_t op = pick("op", 8);
    Num a;
    mkLen(a, "a", n, pick("mode", NMODES));
    if ((op == 3 || op == 4) && n == 0) return;
    I want = 0; BigInteger & b = a.b;
    switch (op) {
    case 0: b = b + b; want = a.v + a.v; break;
    case 1: b = b - b; want = 0; break;
    case 2: b = b + (b - b); want = a.v; break;
    case 3: b = b / b; want = 1; break;
    case 4: b = b % b; want = 0; break;
    case 5: b = b & b; want = a.v; break;
    case 6: b = b | b; want = a.v; break;
    default: b = b ^ b; want = 0; break;
    }
    expectMag(a.b, want, n + 2, "value");
    expectKept(a, "copy-unchanged");
}
// static operations of the implementation with the result object among the operands
extern "C" void unit_aliasimpl() {
    int n = sym_param("n", 2), m = sym_param("m", 1);
    Num a, b;
    mkLen(a, "a", n, pick("mode", NMODES));
    mkLen(b, "b", m, FRESH);
    auto impl = [](const Num & x, int lead) { auto v = std::make_shared<std::vector<uint32_t>>(lead + x.n + 1); for (int i = 0; i < x.n; ++i) (*v)[lead + i] = x.l[i]; return std::make_unique<BigIntegerImpl>(Sl(v, lead, lead + x.n), x.neg ? -1 : 1); };
    auto pa = impl(a, 1), pb = impl(b, 0);
    BigIntegerImpl keep(*pa);
    U mag; bool neg = a.neg != b.neg;
    vhCached = false;
    switch (pick("op", 3)) {
    case 0: BigIntegerImpl::mul(*pa, *pa, *pb); mag = mulMag(a.l, n, b.l, m); break;
    case 1: BigIntegerImpl::mul(*pa, *pb, *pa); mag = mulMag(b.l, m, a.l, n); break;
    default: BigIntegerImpl::mul(*pa, *pa, *pa); mag = mulMag(a.l, n, a.l, n); neg = false; break;
    }
    expectSM(BigInteger(std::move(pa)), neg, mag, n + (m > n ? m : n) + 1, "value");
    expectMag(BigInteger(std::make_unique<BigIntegerImpl>(keep)), a.v, n + 1, "copy-unchanged");
}

// move construction and assignment, swap; moved-from objects are assignable, copyable, destructible
extern "C" void unit_move() {
    int n = sym_param("n", 2), m = sym_param("m", 1);
    Num a, b;
    mk(a, "a", 0, n, pick("mode", NMODES));
    mk(b, "b", 0, m, pick("bmode", 2) ? SHARED_TAIL_CACHED : FRESH);
    int k = (n > m ? n : m) + 1;
    BigInteger * moved = nullptr;
    BigInteger x;
    switch (pick("how", 5)) {
    case 0: x = BigInteger(std::move(a.b)); moved = &a.b; expectMag(x, a.v, k, "move-constructed"); expect2s(x, a.v, k, "move-constructed"); break;
    case 1: b.b = std::move(a.b); moved = &a.b; expectMag(b.b, a.v, k, "move-assigned"); expect2s(b.b, a.v, k, "move-assigned"); break;
    case 2: std::swap(a.b, b.b); expectMag(a.b, b.v, k, "swapped"); expect2s(b.b, a.v, k, "swapped"); expectMag(b.b, a.v, k, "swapped"); expect2s(a.b, b.v, k, "swapped"); break;
    case 3: std::swap(a.b, a.b); expectMag(a.b, a.v, k, "self-swap"); break;
    default: { std::vector<BigInteger> v; v.push_back(a.b); v.push_back(std::move(b.b)); v.push_back(v[0]); moved = &b.b;
               expectMag(v[0], a.v, k, "in-vector"); expectMag(v[1], b.v, k, "in-vector"); v.erase(v.begin()); expectMag(v[0], b.v, k, "after-erase"); expectMag(v[1], a.v, k, "after-erase"); break; }
    }
    expectKept(a, "copy-unchanged"); expectKept(b, "copy-unchanged");
    if (!moved) return;
    Num c; mkLen(c, "c", 1, FRESH);
    switch (pick("then", 6)) {
    case 0: *moved = c.b; break;
    case 1: *moved = BigInteger(c.b); break;
    case 2: { BigInteger t(*moved); BigInteger t2; t2 = *moved; t = c.b; *moved = t; break; }
    case 3: moved->assign("-7b", 16); c.v = -0x7b; break;
    case 4: *moved = 77; c.v = 77; break;
    default: { BigInteger t(c.b); std::swap(*moved, t); break; }
    }
    expectMag(*moved, c.v, 2, "assigned-after-move");
    *moved += c.b;
    sym_reach("moved-from-reused");
    expectKept(a, "copy-unchanged"); expectKept(b, "copy-unchanged");
}

// the implementation class: swap, move and copy keep every part of the state together
extern "C" void unit_implmove() {
    int n = sym_param("n", 2), m = sym_param("m", 2);
    Num a, b;
    mkLen(a, "a", n, pick("mode", NMODES));
    mkLen(b, "b", m, CACHED);
    vhCached = true;
    auto impl = [](Num & x) -> BigIntegerImpl & { return **(std::unique_ptr<BigIntegerImpl> *)&x.b; };
    BigIntegerImpl x = impl(a), y = impl(b), z;
    Num & p = a; Num & q = b; bool swapped = false;
    switch (pick("how", 7)) {
    case 0: x.swap(y); swapped = true; break;
    case 1: x.swap(x); break;
    case 2: { using std::swap; swap(x, y); swapped = true; break; }
    case 3: z = std::move(x); x = std::move(y); y = std::move(z); swapped = true; break;
    case 4: z.assign(std::move(x)); x.assign(y); y.assign(z); swapped = true; break;
    case 5: { BigIntegerImpl t(std::move(y)); y = t; break; }
    default: x.assign(x); y = y; x.assign(std::move(x)); break;
    }
    BigInteger rx(std::make_unique<BigIntegerImpl>(x)), ry(std::make_unique<BigIntegerImpl>(y));
    int k = (n > m ? n : m) + 1;
    expectMag(rx, swapped ? q.v : p.v, k, "first"); expectMag(ry, swapped ? p.v : q.v, k, "second");
    expectMag(a.b, a.v, k, "source-unchanged"); expectMag(b.b, b.v, k, "source-unchanged");
    x.addAssign(1); BigInteger r1(std::make_unique<BigIntegerImpl>(x)); expectMag(r1, (swapped ? q.v : p.v) + 1, k, "then-add");
    expectMag(ry, swapped ? p.v : q.v, k, "second-unchanged");
    expectKept(a, "copy-unchanged");
}
// a number that became zero in one of the ways, with its old value kept elsewhere or not, and copied: both zeros grow again, each on its own
extern "C" void unit_zeros() {
    uint32_t z = sym_param("lo", 0) + sym_choice("way", sym_param("hi", 14) - sym_param("lo", 0));
    Num a; mkLen(a, "a", sym_param("n", 1), pick("mode", NMODES));
    BigInteger & x = a.b; BigInteger old; bool kept = pick("kept", 2);
    if (kept) old = x;
    switch (z) {
    case 0: { BigInteger t(x); x -= t; break; }
    case 1: { BigInteger t(-x); x += t; break; }
    case 2: { BigInteger t(x); x ^= t; break; }
    case 3: x &= BigInteger(); break;
    case 4: x *= 0; break;
    case 5: x.abs(); x >>= 32 * a.n; break;
    case 6: x /= BigInteger("1000000000000000000000000", 16); break;
    case 7: x %= 1; break;
    case 8: x.fromBinary("", 0); break;
    case 9: { static const unsigned char none[5] = {}; x.fromBinary(none, 5); break; }
    case 10: x.assign("-000", 10); break;
    case 11: x = 0; break;
    case 12: { BigInteger t(std::move(x)); x = BigInteger(); break; }
    default: x -= x; break;
    }
    sym_assert(x.isZero(), "zero");
    BigInteger y(x), w(x);
    Args g; g.o = BigInteger(); g.i = 0; g.txt = "-123456789abcdef01";
    static const uint32_t OPS[] = {8, 9, 14, 15, 22, 23, 28, 30, 32, 33};
    auto grow = [&](BigInteger & t, uint32_t op, const char * n) {
        if (op == 8 || op == 9 || op == 14 || op == 15 || op == 30) g.i = (int64_t)(int32_t)sym_u32(n) * 0x10003;
        if (op == 33) for (auto & c : g.bin) c = sym_u8(n);
        BigInteger alone; mutate(t, op, g); mutate(alone, op, g);
        return alone;
    };
    BigInteger p = grow(y, OPS[pick("op1", 10)], "g"), q = grow(x, OPS[pick("op2", 10)], "h");
    expectEq(y, p, 4, "copy"); expectEq(x, q, 4, "number");
    sym_assert(w.isZero(), "other");
    w += 1; sym_assert(w.isOne(), "other-grown");
    expectEq(y, p, 4, "copy-again"); expectEq(x, q, 4, "number-again");
    if (kept) expect2s(old, a.v, a.n + 1, "old-value");
    expectKept(a, "kept");
}

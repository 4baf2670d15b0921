// Models of intrinsics, C/C++ runtime functions, thread primitives and the harness interface.
#include "engine.h"
#include <llvm/IR/Operator.h>
using namespace llvm;
std::unordered_map<std::string, Handler> builtinTable;
using VV = std::vector<Val>;

static Val ctz(E x, unsigned w) { E r = X.konst(w, w); for (int i = w - 1; i >= 0; --i) r = X.ite(X.extract(x, i, 1), X.konst(w, i), r); return Val::of(r); }
static Val clz(E x, unsigned w) { E r = X.konst(w, w); for (unsigned i = 0; i < w; ++i) r = X.ite(X.extract(x, i, 1), X.konst(w, w - 1 - i), r); return Val::of(r); }
static Val popc(E x, unsigned w) { E r = X.konst(w, 0); for (unsigned i = 0; i < w; ++i) r = X.bin(ADD, r, X.zext(X.extract(x, i, 1), w)); return Val::of(r); }
static Val bswap(E x, unsigned w) { E r = X.extract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = X.concat(r, X.extract(x, i, 8)); return Val::of(r); }

bool Engine::intrinsic(State & s, const Inst & in, VV & a, VV & ret) {
    auto & CB = cast<CallBase>(*in.src);
    const Function * F = in.callee->F;
    unsigned w = in.n ? in.leaves[0].w : 0;
    (void)CB;
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        uint64_t n = concretize(s, a[2], 64, "copy length"), d = concretize(s, a[0], 64, "address"), q = concretize(s, a[1], 64, "address");
        copyBytes(s, d, q, n);
        return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        uint64_t n = concretize(s, a[2], 64, "fill length"), d = concretize(s, a[0], 64, "address");
        setBytes(s, d, a[1], n);
        return true;
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
        uint32_t id = a[1].c >> 32;
        if (id < s.nobj && obj(s, id) && obj(s, id)->kind == 2 && !obj(s, id)->state) {
            Object & o = wobj(s, id);
            std::fill(o.st.begin(), o.st.end(), 2);
        }
        return true;
    }
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect:
        if (in.n) ret = {Val(0)};
        return true;
    case Intrinsic::stacksave: ret = {Val(0)}; return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: ret = {a[0]}; return true;
    case Intrinsic::is_constant: ret = {Val(0)}; return true;
    case Intrinsic::objectsize: ret = {Val(maskOf(w))}; return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
        std::string k = a.empty() ? "trap" : "ub-check " + std::to_string(a[0].c);
        fail(s, "ub", "undefined-behaviour", k);
    }
    case Intrinsic::threadlocal_address: ret = {Val(tlsAddr(s, a[0].c >> 32) + (uint32_t)(a[0].c - OBJ_OFF))}; return true;
    case Intrinsic::eh_typeid_for: ret = {Val((a[0].c >> 32) & 0x7fffffff)}; return true;
    case Intrinsic::umax: for (uint32_t i = 0; i < in.n; ++i) { Val x = a[i], y = a[in.n + i]; ret.push_back(select(s, icmp(CmpInst::ICMP_UGT, x, y, w), x, y, w)); } return true;
    case Intrinsic::umin: for (uint32_t i = 0; i < in.n; ++i) { Val x = a[i], y = a[in.n + i]; ret.push_back(select(s, icmp(CmpInst::ICMP_ULT, x, y, w), x, y, w)); } return true;
    case Intrinsic::smax: for (uint32_t i = 0; i < in.n; ++i) { Val x = a[i], y = a[in.n + i]; ret.push_back(select(s, icmp(CmpInst::ICMP_SGT, x, y, w), x, y, w)); } return true;
    case Intrinsic::smin: for (uint32_t i = 0; i < in.n; ++i) { Val x = a[i], y = a[in.n + i]; ret.push_back(select(s, icmp(CmpInst::ICMP_SLT, x, y, w), x, y, w)); } return true;
    case Intrinsic::abs: { Val z(0); E zero = w <= 64 ? X.konst(w, 0) : X.konst(APInt(w, 0)); Val n = binop(s, SUB, Val::of(zero), a[0], w); ret = {select(s, icmp(CmpInst::ICMP_SLT, a[0], Val::of(zero), w), n, a[0], w)}; return true; }
    case Intrinsic::ctpop: if (w > 64) return false; ret = {a[0].conc() ? Val(__builtin_popcountll(a[0].c)) : popc(a[0].e, w)}; return true;
    case Intrinsic::ctlz: if (w > 64) return false; ret = {clz(a[0].ex(w), w)}; return true;
    case Intrinsic::cttz: if (w > 64) return false; ret = {ctz(a[0].ex(w), w)}; return true;
    case Intrinsic::bswap: ret = {bswap(a[0].ex(w), w)}; return true;
    case Intrinsic::bitreverse: { E x = a[0].ex(w), r = X.extract(x, 0, 1); for (unsigned i = 1; i < w; ++i) r = X.concat(r, X.extract(x, i, 1)); ret = {Val::of(r)}; return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        bool left = F->getIntrinsicID() == Intrinsic::fshl;
        E hi = a[0].ex(w), lo = a[1].ex(w), n = X.bin(UREM, a[2].ex(w), X.konst(w, w));
        if (n->isC()) {
            unsigned k = n->cv;
            E cc = X.concat(hi, lo);
            ret = {Val::of(left ? X.extract(cc, w - k, w) : X.extract(cc, k, w))};
        } else {
            E cc = X.concat(hi, lo), n2 = X.zext(n, 2 * w);
            ret = {Val::of(left ? X.extract(X.bin(SHL, cc, n2), w, w) : X.extract(X.bin(LSHR, cc, n2), 0, w))};
        }
        return true;
    }
    case Intrinsic::uadd_with_overflow: { Val r = binop(s, ADD, a[0], a[1], w); ret = {r, icmp(CmpInst::ICMP_ULT, r, a[0], w)}; return true; }
    case Intrinsic::usub_with_overflow: { Val r = binop(s, SUB, a[0], a[1], w); ret = {r, icmp(CmpInst::ICMP_ULT, a[0], a[1], w)}; return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        bool add = F->getIntrinsicID() == Intrinsic::sadd_with_overflow;
        E x = X.sext(a[0].ex(w), w + 1), y = X.sext(a[1].ex(w), w + 1), r = X.bin(add ? ADD : SUB, x, y);
        E low = X.extract(r, 0, w);
        ret = {Val::of(low), Val::of(X.lnot(X.bin(EQ, X.extract(r, w, 1), X.extract(r, w - 1, 1))))};
        return true;
    }
    case Intrinsic::umul_with_overflow: {
        E r = X.bin(MUL, X.zext(a[0].ex(w), 2 * w), X.zext(a[1].ex(w), 2 * w));
        E hi = X.extract(r, w, w);
        ret = {Val::of(X.extract(r, 0, w)), Val::of(X.lnot(X.bin(EQ, hi, w <= 64 ? X.konst(w, 0) : X.konst(APInt(w, 0)))))};
        return true;
    }
    case Intrinsic::smul_with_overflow: {
        E r = X.bin(MUL, X.sext(a[0].ex(w), 2 * w), X.sext(a[1].ex(w), 2 * w));
        E lo = X.extract(r, 0, w);
        ret = {Val::of(lo), Val::of(X.lnot(X.bin(EQ, r, X.sext(lo, 2 * w))))};
        return true;
    }
    case Intrinsic::usub_sat: ret = {select(s, icmp(CmpInst::ICMP_ULT, a[0], a[1], w), Val::of(w <= 64 ? X.konst(w, 0) : X.konst(APInt(w, 0))), binop(s, SUB, a[0], a[1], w), w)}; return true;
    case Intrinsic::uadd_sat: { Val r = binop(s, ADD, a[0], a[1], w); ret = {select(s, icmp(CmpInst::ICMP_ULT, r, a[0], w), Val(maskOf(w)), r, w)}; return true; }
    case Intrinsic::ptrmask: ret = {binop(s, AND, a[0], a[1], 64)}; return true;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
        Op o = F->getIntrinsicID() == Intrinsic::vector_reduce_add ? ADD : F->getIntrinsicID() == Intrinsic::vector_reduce_or ? OR : F->getIntrinsicID() == Intrinsic::vector_reduce_and ? AND : XOR;
        Val r = a[0]; for (size_t i = 1; i < a.size(); ++i) r = binop(s, o, r, a[i], w);
        ret = {r}; return true;
    }
    default: return false;
    }
}

// ---------------------------------------------------------------- helpers
#define H(name) static bool name(Engine & g, State & s, const Inst & in, VV & a, VV & ret)
static uint64_t C(Engine & g, State & s, const Val & v, const char * why = "argument") { return g.concretize(s, v, 64, why); }

H(h_new) {
    (void)in;
    uint64_t n = C(g, s, a[0], "allocation size");
    if (n > (64u << 20)) g.fail(s, "exception", "exception", "allocation of " + std::to_string(n) + " bytes");
    s.heapLive++;
    ret = {Val(objAddr(g.newObject(s, n, 1, false, "heap")))};
    return true;
}
H(h_delete) {
    (void)in; (void)ret;
    uint64_t p = C(g, s, a[0]);
    if (!p) return true;
    const Object * o = g.obj(s, p >> 32);
    if (!o || o->kind != 1 || (uint32_t)p != OBJ_OFF) g.fail(s, "badfree", "memory", "free of a pointer that was not allocated");
    if (o->state) g.fail(s, "uaf", "memory", "double free");
    if (s.th.size() > 1) g.raceCheck(s, p >> 32, 0, o->size, true, false);
    s.heapLive--;
    g.freeObj(s, p >> 32);
    return true;
}
H(h_calloc) {
    (void)in;
    uint64_t n = C(g, s, a[0]) * C(g, s, a[1]);
    s.heapLive++;
    ret = {Val(objAddr(g.newObject(s, n, 1, true, "heap")))};
    return true;
}
H(h_memcpy) { (void)in; uint64_t n = C(g, s, a[2], "copy length"), d = C(g, s, a[0]), q = C(g, s, a[1]); g.copyBytes(s, d, q, n); ret = {Val(d)}; return true; }
H(h_memset) { (void)in; uint64_t n = C(g, s, a[2], "fill length"), d = C(g, s, a[0]); g.setBytes(s, d, a[1], n); ret = {Val(d)}; return true; }
static bool cmpImpl(Engine & g, State & s, VV & a, VV & ret, bool order) {
    uint64_t n = C(g, s, a[2], "comparison length"), p = C(g, s, a[0]), q = C(g, s, a[1]);
    // result = ite(b0 != c0, sign, ite(b1 != c1, ...))
    VV x, y;
    uint32_t id, off;
    if (n) { g.check(s, p, n, false, id, off, "compare"); g.check(s, q, n, false, id, off, "compare"); }
    for (uint64_t i = 0; i < n; ++i) {
        x.push_back(g.load(s, p + i, 8)); y.push_back(g.load(s, q + i, 8));
        if (x.back().conc() && y.back().conc() && x.back().c != y.back().c) break;
    }
    E r = X.konst(32, 0);
    for (int i = (int)x.size() - 1; i >= 0; --i) {
        E u = x[i].ex(8), v = y[i].ex(8);
        E d = order ? X.ite(X.bin(ULT, u, v), X.konst(32, 0xffffffff), X.konst(32, 1)) : X.konst(32, 1);
        r = X.ite(X.bin(EQ, u, v), r, d);
    }
    ret = {Val::of(r)};
    return true;
}
H(h_memcmp) { (void)in; return cmpImpl(g, s, a, ret, true); }
H(h_bcmp) { (void)in; return cmpImpl(g, s, a, ret, false); }
H(h_strlen) {
    (void)in;
    uint64_t p = C(g, s, a[0]), i = 0;
    while (true) {
        Val v = g.load(s, p + i, 8);
        Val z = g.icmp(CmpInst::ICMP_EQ, v, Val(0), 8);
        if (g.decide(s, z)) break;
        ++i;
    }
    ret = {Val(i)};
    return true;
}
H(h_nop0) { (void)g; (void)s; (void)a; if (in.n) ret = {Val(0)}; return true; }
H(h_abort) { (void)a; (void)ret; g.fail(s, "abort", "abort", "call of " + in.callee->name); }
H(h_glibcxx_assert) { (void)ret; (void)in; g.fail(s, "ub", "standard-library-precondition", "precondition of the standard library broken: " + g.cstr(s, a[3].c)); }
H(h_assert_fail) { (void)ret; (void)in; g.fail(s, "abort", "assertion-in-library", "internal assertion failed: " + g.cstr(s, a[0].c) + " (" + g.cstr(s, a[1].c) + ":" + std::to_string(a[2].c) + ")"); }
H(h_exit) {
    (void)ret; (void)in;
    uint64_t c = g.concretize(s, a[0], 32, "exit code");
    if (s.expectExit == (int)c) { g.assertIds["exit-declared"]++; g.asserts++; s.assertsDone++; g.finish(s); }
    g.fail(s, "exit", "exit", "library called exit(" + std::to_string(c) + ")");
}
H(h_throwstd) {
    (void)ret; (void)a;
    // the standard library's throw helpers: unwind with an opaque type
    uint32_t id = g.newObject(s, 16 + 64, 1, true, "exception");
    uint64_t e = objAddr(id) + 16;
    g.store(s, e - 16, Val(0), 64);
    if (!g.unwind(s, e)) g.fail(s, "exception", "exception", "uncaught exception from " + in.callee->name);
    return false;
}
H(h_alloc_exc) { (void)in; uint32_t id = g.newObject(s, 16 + C(g, s, a[0]), 1, true, "exception"); ret = {Val(objAddr(id) + 16)}; return true; }
H(h_throw) {
    (void)in; (void)ret;
    uint64_t e = C(g, s, a[0]);
    g.store(s, e - 16, a[1], 64);
    if (!g.unwind(s, e)) g.fail(s, "exception", "exception", "uncaught exception");
    return false;
}
H(h_begin_catch) { (void)in; s.th[s.cur].caught.push_back(C(g, s, a[0])); ret = {a[0]}; return true; }
H(h_end_catch) { (void)g; (void)in; (void)a; (void)ret; auto & c = s.th[s.cur].caught; if (!c.empty()) c.pop_back(); return true; }
H(h_current_exception) { (void)g; (void)in; (void)a; auto & c = s.th[s.cur].caught; ret = {Val(c.empty() ? 0 : c.back())}; return true; }
H(h_init_exception) { (void)in; uint64_t e = C(g, s, a[0]); g.store(s, e - 16, a[1], 64); ret = {Val(e - 16)}; return true; }
H(h_rethrow) { // sym_rethrow(p), or __cxa_rethrow of the exception being handled
    (void)ret; (void)in;
    auto & c = s.th[s.cur].caught;
    if (a.empty() && c.empty()) g.fail(s, "abort", "abort", "rethrow without an exception");
    uint64_t e = a.empty() ? c.back() : C(g, s, a[0]);
    if (!g.unwind(s, e)) g.fail(s, "exception", "exception", "uncaught exception");
    return false;
}
H(h_pthread_self) { (void)g; (void)in; (void)a; ret = {Val(s.cur + 1)}; return true; }

// ---------------------------------------------------------------- threads
H(h_mutex_lock) {
    (void)in;
    uint64_t m = C(g, s, a[0]);
    if (!g.visible(s)) return false;
    auto it = s.mutexOwner.find(m);
    if (it != s.mutexOwner.end()) {
        if (it->second == s.cur) g.fail(s, "deadlock", "deadlock", "thread locks a mutex it already holds");
        if (s.th.size() > 1) s.sched.pop_back();
        g.blockCurrent(s, 1, m);
        return false;
    }
    s.mutexOwner[m] = s.cur;
    if (s.th.size() > 1) g.vcAcquire(s, m);
    ret = {Val(0)};
    return true;
}
H(h_mutex_trylock) {
    (void)in;
    uint64_t m = C(g, s, a[0]);
    if (!g.visible(s)) return false;
    if (s.mutexOwner.count(m)) { ret = {Val(16)}; return true; }
    s.mutexOwner[m] = s.cur;
    if (s.th.size() > 1) g.vcAcquire(s, m);
    ret = {Val(0)};
    return true;
}
static void unlock(Engine & g, State & s, uint64_t m) {
    auto it = s.mutexOwner.find(m);
    if (it == s.mutexOwner.end() || it->second != s.cur) g.fail(s, "sync", "sync", "unlock of a mutex that is not held");
    s.mutexOwner.erase(it);
    if (s.th.size() > 1) g.vcRelease(s, m);
    g.wake(s, 1, m, true, false);
}
H(h_mutex_unlock) { (void)in; unlock(g, s, C(g, s, a[0])); ret = {Val(0)}; return true; }
H(h_thread_create) { // sym_thread_create(fn, arg) -> id
    (void)in;
    if (!g.visible(s)) return false;
    uint64_t fn = C(g, s, a[0]);
    if (s.th[0].vc.empty()) s.th[0].vc.assign(1, 1);
    int id = s.th.size();
    if (s.th[s.cur].vc.size() <= (size_t)s.cur) s.th[s.cur].vc.resize(s.cur + 1, 1);
    s.th.emplace_back();
    Thread & t = s.th.back();
    t.vc = s.th[s.cur].vc;
    t.vc.resize(id + 1, 0);
    t.vc[id] = 1;
    s.th[s.cur].vc[s.cur]++;
    Func * f = g.getFunc(g.funcList[(fn - 0x700000000000ull) / 16]->F);
    int cur = s.cur;
    s.cur = id;
    g.pushFrame(s, f, {a[1]});
    s.cur = cur;
    ret = {Val(id)};
    return true;
}
H(h_thread_join) {
    (void)in;
    uint64_t id = C(g, s, a[0]);
    if (!g.visible(s)) return false;
    if (id == 0 || id >= s.th.size()) g.fail(s, "sync", "sync", "join of an invalid thread");
    if (s.th[id].ts != TS::DONE) { s.sched.pop_back(); g.blockCurrent(s, 3, id); return false; }
    g.vcAcquire(s, 0xD000000000000000ull + id);
    ret = {Val(0)};
    return true;
}
H(h_cond_wait) { // sym_cond_wait(cond, mutex)
    (void)in;
    uint64_t c = C(g, s, a[0]), m = C(g, s, a[1]);
    if (s.th[s.cur].condSig == c) { // woken: take the mutex again
        if (!g.visible(s)) return false;
        if (s.mutexOwner.count(m)) {
            if (s.th.size() > 1) s.sched.pop_back();
            g.blockCurrent(s, 1, m);
            return false;
        }
        s.th[s.cur].condSig = 0;
        s.mutexOwner[m] = s.cur;
        if (s.th.size() > 1) { g.vcAcquire(s, m); g.vcAcquire(s, c); }
        ret = {Val(0)};
        return true;
    }
    if (!g.visible(s)) return false;
    unlock(g, s, m);
    if (s.spurious < g.cfg.spuriousBound && s.th.size() > 1) { // a wait may return without a notification
        auto n = g.clone(s);
        n->spurious++;
        Thread & u = n->th[n->cur];
        u.condSig = c; u.go = false;
        n->sched.push_back(0x40 | n->cur);
        g.work.push_back(std::move(n));
    }
    g.blockCurrent(s, 2, c);
    return false;
}
static void wakeCond(State & s, int i) { Thread & t = s.th[i]; t.ts = TS::RUN; t.condSig = t.on; t.go = false; }
H(h_cond_notify_one) {
    uint64_t c = C(g, s, a[0]);
    if (!g.visible(s)) return false;
    if (s.th.size() > 1) g.vcRelease(s, c);
    std::vector<int> w;
    for (int i = 0; i < (int)s.th.size(); ++i) if (s.th[i].ts == TS::BLOCKED && s.th[i].why == 2 && s.th[i].on == c) w.push_back(i);
    for (size_t k = 1; k < w.size(); ++k) { // any waiter may be chosen
        auto n = g.clone(s);
        wakeCond(*n, w[k]);
        n->sched.push_back(0x80 | w[k]);
        Frame & f = g.top(*n);
        if (in.e1 != ~0u) g.jump(f, in.e1); else ++f.ip;
        g.work.push_back(std::move(n));
    }
    if (!w.empty()) { wakeCond(s, w[0]); if (w.size() > 1) s.sched.push_back(0x80 | w[0]); }
    ret = {Val(0)};
    return true;
}
H(h_cond_notify_all) {
    (void)in;
    uint64_t c = C(g, s, a[0]);
    if (!g.visible(s)) return false;
    if (s.th.size() > 1) g.vcRelease(s, c);
    for (int i = 0; i < (int)s.th.size(); ++i) if (s.th[i].ts == TS::BLOCKED && s.th[i].why == 2 && s.th[i].on == c) wakeCond(s, i);
    ret = {Val(0)};
    return true;
}
H(h_futex_wait) { // sym_futex_wait(addr, val)
    (void)in;
    uint64_t p = C(g, s, a[0]);
    if (!g.visible(s)) return false;
    Val v = g.load(s, p, 32, true);
    if (!g.decide(s, g.icmp(CmpInst::ICMP_EQ, v, a[1], 32))) { if (s.th.size() > 1) g.vcAcquire(s, p); ret = {Val(0)}; return true; }
    if (s.th.size() < 2) g.fail(s, "deadlock", "deadlock", "waiting for a value nobody will provide");
    s.sched.pop_back();
    g.blockCurrent(s, 4, p);
    return false;
}
H(h_futex_wake) {
    (void)in;
    uint64_t p = C(g, s, a[0]);
    if (!g.visible(s)) return false;
    if (s.th.size() > 1) g.vcRelease(s, p);
    g.wake(s, 4, p, true, true);
    ret = {Val(0)};
    return true;
}
H(h_guard_acquire) {
    (void)in;
    uint64_t p = C(g, s, a[0]);
    Val v = g.load(s, p, 8, true);
    if (v.c == 1) { if (s.th.size() > 1) g.vcAcquire(s, p); ret = {Val(0)}; return true; }
    Val b = g.load(s, p + 1, 8, true);
    if (b.c == 1) { g.blockCurrent(s, 5, p); return false; }
    g.store(s, p + 1, Val(1), 8, true);
    ret = {Val(1)};
    return true;
}
H(h_guard_release) {
    (void)in; (void)ret;
    uint64_t p = C(g, s, a[0]);
    g.store(s, p, Val(1), 8, true); g.store(s, p + 1, Val(0), 8, true);
    if (s.th.size() > 1) g.vcRelease(s, p);
    g.wake(s, 5, p, true, false);
    return true;
}
H(h_nthreads) { (void)g; (void)in; (void)a; int n = 0; for (auto & t : s.th) n += t.ts != TS::DONE; ret = {Val(n)}; return true; }

// ---------------------------------------------------------------- harness interface
static std::string inputName(Engine & g, State & s, const Val & p) {
    std::string n = g.cstr(s, p.c);
    int k = s.names[n]++;
    return k ? n + "#" + std::to_string(k) : n;
}
// paths reuse the symbols of the inputs with the same name: they live in different states
static E namedSym(const std::string & n, unsigned w, uint64_t hi = ~0ull) {
    static std::unordered_map<std::string, E> m;
    E & e = m[n];
    if (!e) e = X.sym(n, w, hi);
    return e;
}
static E newSym(Engine & g, State & s, const Val & p, unsigned w) {
    std::string n = inputName(g, s, p);
    E e = namedSym(n + ":" + std::to_string(w), w);
    s.inputs.push_back({n, e});
    return e;
}
template <unsigned W> H(h_sym) { (void)in; ret = {Val::of(newSym(g, s, a[0], W))}; return true; }
H(h_sym_range) { // sym_range(name, lo, hi): lo <= x <= hi, 64 bit
    (void)in;
    uint64_t lo = C(g, s, a[1]), hi = C(g, s, a[2]), d = hi - lo;
    unsigned w = 1; while (w < 64 && (d >> w)) ++w;
    std::string n = inputName(g, s, a[0]);
    E e = namedSym(n + ":r" + std::to_string(d), w, d);
    E z = X.bin(ADD, X.zext(e, 64), X.konst(64, lo));
    s.inputs.push_back({n, z});
    ret = {Val::of(z)};
    return true;
}
H(h_sym_choice) { // sym_choice(name, n): one path per value
    (void)in;
    uint64_t n = C(g, s, a[1]);
    std::string nm = inputName(g, s, a[0]);
    E e = namedSym(nm + ":c", 32);
    // fork directly, no solver involved: the symbol is fresh
    Frame & f = g.top(s);
    (void)f;
    for (uint64_t k = n; k-- > 1;) {
        auto t = g.clone(s);
        t->inputs.push_back({nm, e});
        g.addPc(*t, X.bin(EQ, e, X.konst(32, k)));
        if (t->model) { auto m = std::make_shared<Model>(); m->v = t->model->v; if (m->v.size() <= e->lo) m->v.resize(e->lo + 1); m->v[e->lo] = k; t->model = m; }
        Frame & tf = g.top(*t);
        if (in.n) tf.r[in.dst] = Val(k);
        if (in.e1 != ~0u) g.jump(tf, in.e1); else ++tf.ip;
        g.work.push_back(std::move(t));
    }
    s.inputs.push_back({nm, e});
    g.addPc(s, X.bin(EQ, e, X.konst(32, 0)));
    if (s.model) { auto m = std::make_shared<Model>(); m->v = s.model->v; if (m->v.size() <= e->lo) m->v.resize(e->lo + 1); m->v[e->lo] = 0; s.model = m; }
    ret = {Val(0)};
    return true;
}
H(h_sym_param) {
    (void)in;
    std::string n = g.cstr(s, a[0].c);
    auto it = g.cfg.params.find(n);
    ret = {it == g.cfg.params.end() ? a[1] : Val(it->second)};
    return true;
}
H(h_sym_assume) { (void)in; (void)ret; g.checkUninit(s, a[0].e, "assumption"); g.assume(s, in.lanes[0] == 1 ? a[0] : g.icmp(CmpInst::ICMP_NE, a[0], Val(0), in.lanes[0])); return true; }
H(h_sym_assert) { (void)ret; g.assertion(s, in.lanes[0] == 1 ? a[0] : g.icmp(CmpInst::ICMP_NE, a[0], Val(0), in.lanes[0]), g.cstr(s, a[1].c)); return true; }
H(h_sym_fail) { (void)in; (void)ret; ++g.asserts; g.feasible(s); g.fail(s, "assert", g.cstr(s, a[0].c), "reached"); }
H(h_sym_reach) { (void)in; (void)ret; g.reached[g.cstr(s, a[0].c)]++; return true; }
H(h_sym_concretize) { (void)in; ret = {Val(C(g, s, a[0], "concretize"))}; return true; }
H(h_sym_observe) { (void)in; (void)ret; s.obs.push_back({g.cstr(s, a[0].c), a[1], in.lanes[1]}); return true; }
H(h_sym_expect_exit) { (void)g; (void)in; (void)ret; s.expectExit = (int)a[0].c; return true; }
H(h_sym_is_symbolic) { (void)g; (void)s; (void)in; ret = {Val(1)}; return true; }
H(h_sym_heap_live) { (void)g; (void)in; (void)a; ret = {Val((uint64_t)s.heapLive)}; return true; }
H(h_sym_log) {
    (void)in; (void)ret;
    if (g.cfg.verbose) { std::string n = g.cstr(s, a[0].c); fprintf(stderr, "[log] %s %s\n", n.c_str(), a[1].conc() ? std::to_string(a[1].c).c_str() : show(a[1].e, 8).c_str()); }
    return true;
}
H(h_fwrite) { (void)g; (void)s; (void)in; if (in.n) ret = {a.size() > 2 ? a[2] : Val(0)}; return true; }

// formatted output into a buffer: the variable arguments are laid out in memory and the model in rt.cpp formats them
template <bool SN> H(h_sprintf) {
    (void)ret;
    Function * F = g.M->getFunction("model_format");
    if (!F) g.unsupported(s, "sprintf without a model");
    size_t first = SN ? 3 : 2, n = a.size() - first;
    uint32_t id = g.newObject(s, 8 * (n + 1), 2, true, "varargs");
    for (size_t i = 0; i < n; ++i) {
        unsigned w = in.lanes.size() > first + i ? in.lanes[first + i] : 64;
        Val v = a[first + i];
        if (v.e && v.e->w < 64) v = Val::of(X.zext(v.e, 64));
        (void)w;
        g.store(s, objAddr(id) + 8 * i, v, 64, false);
    }
    g.pushFrame(s, g.getFunc(F), {a[0], SN ? a[1] : Val(~0ull), a[SN ? 2 : 1], Val(objAddr(id))});
    g.top(s).allocas.push_back(id);
    return false;
}

void Engine::registerBuiltins() {
    auto & t = builtinTable;
    for (const char * n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) t[n] = h_new;
    for (const char * n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"}) t[n] = h_delete;
    t["calloc"] = h_calloc;
    t["memcpy"] = t["memmove"] = h_memcpy; t["memset"] = h_memset; t["memcmp"] = h_memcmp; t["bcmp"] = h_bcmp; t["strlen"] = h_strlen;
    for (const char * n : {"fprintf", "fputs", "printf", "puts", "fflush", "putchar", "fputc", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_atexit", "__cxa_thread_atexit", "_ZSt21ios_base_library_initv",
                           "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "_ZNSo3putEc", "_ZNSo5flushEv", "__cxa_free_exception", "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", "atexit"}) t[n] = h_nop0;
    t["fwrite"] = h_fwrite;
    t["sprintf"] = h_sprintf<false>; t["snprintf"] = h_sprintf<true>;
    for (const char * n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate"}) t[n] = h_abort;
    t["__assert_fail"] = h_assert_fail;
    t["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = h_glibcxx_assert;
    t["exit"] = t["_exit"] = t["quick_exit"] = h_exit;
    for (auto & F : *M) {
        std::string n = F.getName().str();
        if (F.isDeclaration() && n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) t[n] = h_throwstd;
    }
    t["__cxa_allocate_exception"] = h_alloc_exc; t["__cxa_throw"] = h_throw; t["__cxa_begin_catch"] = h_begin_catch; t["__cxa_end_catch"] = h_end_catch;
    t["__cxa_rethrow"] = t["sym_rethrow"] = h_rethrow; t["sym_current_exception"] = h_current_exception; t["__cxa_init_primary_exception"] = h_init_exception;
    t["pthread_cond_destroy"] = h_nop0; t["pthread_self"] = h_pthread_self;
    t["pthread_mutex_lock"] = h_mutex_lock; t["pthread_mutex_unlock"] = h_mutex_unlock; t["pthread_mutex_trylock"] = h_mutex_trylock;
    t["sym_thread_create"] = h_thread_create; t["sym_thread_join"] = h_thread_join;
    t["sym_cond_wait"] = h_cond_wait; t["sym_cond_notify_one"] = h_cond_notify_one; t["sym_cond_notify_all"] = h_cond_notify_all;
    t["sym_futex_wait"] = h_futex_wait; t["sym_futex_wake"] = h_futex_wake;
    t["__cxa_guard_acquire"] = h_guard_acquire; t["__cxa_guard_release"] = h_guard_release; t["__cxa_guard_abort"] = h_nop0;
    t["sym_threads_alive"] = h_nthreads;
    t["sym_u8"] = h_sym<8>; t["sym_u16"] = h_sym<16>; t["sym_u32"] = h_sym<32>; t["sym_u64"] = h_sym<64>; t["sym_bool"] = h_sym<1>;
    t["sym_range"] = h_sym_range; t["sym_choice"] = h_sym_choice; t["sym_param"] = h_sym_param;
    t["sym_assume"] = h_sym_assume; t["sym_assert"] = h_sym_assert; t["sym_fail"] = h_sym_fail; t["sym_reach"] = h_sym_reach;
    t["sym_concretize"] = h_sym_concretize; t["sym_observe"] = h_sym_observe; t["sym_expect_exit"] = h_sym_expect_exit;
    t["sym_is_symbolic"] = h_sym_is_symbolic; t["sym_heap_live"] = h_sym_heap_live; t["sym_log"] = h_sym_log;
}

// State handling, memory model and interpretation.
#include "engine.h"
#include <chrono>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
using namespace llvm;

double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static inline uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

// ------------------------------------------------------------------ states
Frame & Engine::top(State & s) {
    auto & st = s.th[s.cur].st;
    if (st.back().use_count() > 1) st.back() = std::make_shared<Frame>(*st.back());
    return *st.back();
}

StateP Engine::clone(State & s) {
    auto n = std::make_unique<State>(s);
    n->id = nextId++;
    n->forks++; s.forks++;
    ++states;
    return n;
}

void Engine::addPc(State & s, E c) {
    if (c->isC()) return;
    if (c->op == AND && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; }
    for (E p : s.pc) if (p == c) return;
    s.pc.push_back(c);
    s.pcHash = mixh(s.pcHash, c->id);
}

std::string Engine::where(State & s, std::vector<std::string> * stack) {
    std::string first;
    if (s.th.empty()) return "";
    auto & st = s.th[s.cur].st;
    for (int i = (int)st.size() - 1; i >= 0; --i) {
        Frame & f = *st[i];
        if (f.ip >= f.f->code.size()) continue;
        const Instruction * I = f.f->code[f.ip].src;
        std::string entry = demangle(f.f->name);
        const DILocation * L = I->getDebugLoc().get();
        for (; L; L = L->getInlinedAt()) {
            std::string fn = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "";
            std::string e = fn + " " + L->getFilename().str() + ":" + std::to_string(L->getLine());
            if (stack) stack->push_back(e);
            bool ours = L->getFilename().contains("/usr/include") || L->getFilename().contains("/usr/lib") ? false : true;
            if (first.empty() && ours) first = e;
        }
        if (!I->getDebugLoc() && stack) stack->push_back(entry);
    }
    return first;
}

void Engine::report(State & s, const std::string & kind, const std::string & id, const std::string & msg, const std::vector<E> & cs) {
    if (cfg.ubOnly) for (const char * k : {"assert", "abort", "exception", "exit", "nonterm", "deadlock", "sync"}) if (kind == k) return;
    // a violation needs a model of the complete path condition
    ModelP m = s.model;
    bool ok = m && !s.unsure;
    if (ok) for (E c : cs) if (!m->truth(c)) ok = false;
    if (!ok) {
        std::vector<E> q = s.pc; for (E c : cs) q.push_back(c);
        ModelP out;
        Res r = solver.check(q, s.model ? s.model : std::make_shared<Model>(), out, true);
        if (r == UNSAT) return;
        if (r == UNKNOWN) { incomplete.insert("solver could not decide whether " + kind + " at " + where(s) + " is reachable"); return; }
        m = out;
    }
    Violation v;
    v.kind = kind; v.id = id; v.msg = msg; v.loc = where(s, &v.stack);
    for (auto & [n, e] : s.inputs) v.inputs.push_back({n, m->eval64(e)});
    v.sched = s.sched;
    std::string key = kind + "|" + id + "|" + v.loc;
    if (violCount[key]++ < 2) viol.push_back(v);
    if (cfg.verbose) {
        fprintf(stderr, "[viol] %s %s %s at %s\n", kind.c_str(), id.c_str(), msg.c_str(), v.loc.c_str());
        for (auto & [n, x] : v.inputs) fprintf(stderr, "    %s=%llu\n", n.c_str(), (unsigned long long)x);
    }
}

void Engine::fail(State & s, const std::string & kind, const std::string & id, const std::string & msg) {
    report(s, kind, id, msg, {});
    throw PathEnd{};
}
void Engine::unsupported(State & s, const std::string & what) {
    incomplete.insert("unsupported: " + what + " at " + where(s));
    throw PathEnd{};
}

bool Engine::feasible(State & s) {
    if (s.model && !s.unsure) return true;
    ModelP out;
    Res r = solver.check(s.pc, s.model ? s.model : std::make_shared<Model>(), out, true);
    if (r == SAT) { s.model = out; s.unsure = false; return true; }
    if (r == UNSAT) throw PathEnd{};
    return false;
}

E Engine::substUninit(E e, E by, std::unordered_map<E, E> & memo) {
    if (!e || !e->syms || !e->syms->test(0)) return e;
    if (e == UNINIT) return by;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E a = substUninit(e->a, by, memo), b = substUninit(e->b, by, memo), c = substUninit(e->c, by, memo), r;
    switch (e->op) {
    case ITE: r = X.ite(a, b, c); break;
    case CONCAT: r = X.concat(a, b); break;
    case EXTRACT: r = X.extract(a, e->lo, e->w); break;
    case ZEXT: r = X.zext(a, e->w); break;
    case SEXT: r = X.sext(a, e->w); break;
    default: r = X.bin(e->op, a, b);
    }
    return memo[e] = r;
}

// an if-then-else over constants whose condition is already part of the path condition
E Engine::known(State & s, E e) {
    while (e->op == ITE && e->ctree) {
        E n = X.lnot(e->a), hit = nullptr;
        for (auto it = s.pc.rbegin(); it != s.pc.rend() && !hit; ++it) { if (*it == e->a) hit = e->b; else if (*it == n) hit = e->c; }
        if (!hit) return e;
        e = hit;
    }
    return e;
}

void Engine::checkUninit(State & s, E e, const char * what) {
    if (!cfg.uninitCheck || !e || !e->syms || !e->syms->test(0)) return;
    // does the value really depend on it on this path?  (merged values may mention memory that is not selected)
    std::unordered_map<E, E> m0, m1;
    E a = substUninit(e, X.konst(UNINIT->w, 0), m0), b = substUninit(e, UNINIT2, m1);
    E d = X.lnot(X.bin(EQ, a, b));
    if (d->isC() && !d->cv) return;
    std::vector<E> q = s.pc; q.push_back(d);
    ModelP out;
    Res r = solver.check(q, s.model ? s.model : std::make_shared<Model>(), out, true);
    if (r == UNSAT) return;
    if (r == UNKNOWN) { incomplete.insert(std::string("undecided whether a value depends on uninitialised memory: ") + what); return; }
    s.model = out; s.unsure = false; addPc(s, d);
    fail(s, "uninit", "uninit", std::string("behaviour depends on uninitialised or stale memory: ") + what);
}

static void forked(Engine & g, State & s, E c) {
    if (!g.cfg.verbose) return;
    std::vector<std::string> st; std::string w = g.where(s, &st);
    for (size_t i = 0; i < st.size() && i < 5; ++i) w += " < " + st[i];
    fprintf(stderr, "[fork] %s\n", w.c_str());
    if (g.cfg.verbose > 1) fprintf(stderr, "       %s\n", show(c, 5).c_str());
}
bool Engine::decide(State & s, E c) {
    if (c->isC()) return c->cv;
    checkUninit(s, c, "branch condition");
    E n = X.lnot(c);
    for (auto it = s.pc.rbegin(); it != s.pc.rend(); ++it) { if (*it == c) return true; if (*it == n) return false; }
    uint64_t key = mixh(s.pcHash, c->id);
    auto it = memo.find(key);
    if (it != memo.end() && it->second < 2) return it->second;
    ++branches;
    if (!s.model || s.unsure) {
        // no model of the path condition is known: ask for both sides
        ModelP m1, m2;
        std::vector<E> q = s.pc; q.push_back(c);
        Res r1 = solver.check(q, std::make_shared<Model>(), m1, false);
        q.back() = n;
        Res r2 = solver.check(q, std::make_shared<Model>(), m2, false);
        if (r1 == UNSAT && r2 == UNSAT) throw PathEnd{};
        if (r1 == UNSAT) { memo[key] = 0; if (m2) { s.model = m2; s.unsure = false; } return false; }
        if (r2 == UNSAT) { memo[key] = 1; if (m1) { s.model = m1; s.unsure = false; } return true; }
        forked(*this, s, c);
        auto o = clone(s);
        addPc(*o, n); o->model = m2; o->unsure = !m2;
        if (!m1 || !m2) ++branchUnknown;
        work.push_back(std::move(o));
        addPc(s, c); s.model = m1; s.unsure = !m1;
        return true;
    }
    bool v = s.model->truth(c);
    E other = v ? n : c;
    std::vector<E> q = Solver::slice(s.pc, other);
    ModelP m;
    Res r = solver.check(q, s.model, m, false);
    if (r == UNSAT) { memo[key] = v; return v; }
    if (r == UNKNOWN) ++branchUnknown;
    forked(*this, s, c);
    auto o = clone(s);
    addPc(*o, other);
    if (r == SAT) o->model = m; else { o->unsure = true; }
    work.push_back(std::move(o));
    addPc(s, v ? c : n);
    return v;
}

uint64_t Engine::concretize(State & s, const Val & v, unsigned w, const char * why) {
    if (v.conc()) return v.c;
    E e = v.e;
    checkUninit(s, e, why);
    for (auto & [x, k] : s.fixed) if (x == e) return k;
    // excluded values are part of the path condition, so any model gives an admissible value
    feasible(s);
    if (!s.model) unsupported(s, std::string("cannot pick a value for ") + why);
    uint64_t k = s.model->eval64(e);
    E eq = X.bin(EQ, e, X.konst(w, k));
    if (decide(s, eq)) { s.fixed.push_back({e, k}); return k; }
    // model was refreshed; cannot happen with a satisfying model
    unsupported(s, "concretize");
}

void Engine::assume(State & s, const Val & c) {
    if (c.conc()) { if (!(c.c & 1)) { ++pathsAssumedAway; throw PathEnd{}; } return; }
    E e = c.e;
    if (s.model && !s.unsure && s.model->truth(e)) { addPc(s, e); return; }
    std::vector<E> q;
    if (s.model && !s.unsure) q = Solver::slice(s.pc, e); else { q = s.pc; q.push_back(e); }
    ModelP m;
    Res r = solver.check(q, s.model && !s.unsure ? s.model : std::make_shared<Model>(), m, true);
    if (r == UNSAT) { ++pathsAssumedAway; throw PathEnd{}; }
    addPc(s, e);
    if (r == SAT) { s.model = m; s.unsure = false; } else { s.unsure = true; ++branchUnknown; }
}

void Engine::assertion(State & s, const Val & c, const std::string & id) {
    if (cfg.ubOnly) { if (!c.conc()) checkUninit(s, c.e, "asserted condition"); return; }
    ++asserts; ++s.assertsDone;
    assertIds[id]++;
    if (c.conc()) {
        if (!(c.c & 1)) { feasible(s); report(s, "assert", id, "assertion fails on this path", {}); throw PathEnd{}; }
        return;
    }
    checkUninit(s, c.e, "asserted condition");
    ++assertsSym;
    E n = X.lnot(c.e);
    std::vector<E> q;
    bool sure = s.model && !s.unsure;
    if (sure) q = Solver::slice(s.pc, n); else { q = s.pc; q.push_back(n); }
    ModelP m;
    Res r = solver.check(q, sure ? s.model : std::make_shared<Model>(), m, true);
    if (r == UNSAT) return;
    if (r == UNKNOWN) { ++assertsUnknown; incomplete.insert("assertion " + id + " undecided by the solver"); addPc(s, c.e); s.unsure = true; return; }
    State t(s); t.model = m; t.unsure = false; addPc(t, n);
    report(t, "assert", id, "assertion can fail", {});
    assume(s, c);
}

void Engine::finish(State & s) {
    ++pathsCompleted;
    if (s.unsure) ++pathsUnsure;
    if (s.forks > maxForks) maxForks = s.forks;
    // keep some completed paths as traces to be validated against the real build
    bool keep = false;
    if ((int)samples.size() < cfg.samples) keep = true;
    else if (cfg.samples > 0) { uint64_t h = mixh(pathsCompleted, 77); if (h % (pathsCompleted) < (uint64_t)cfg.samples) keep = true; }
    if (keep && (!s.unsure || (solver.check(s.pc, std::make_shared<Model>(), s.model) == SAT)) && s.model) {
        Sample sm;
        for (auto & [n, e] : s.inputs) sm.inputs.push_back({n, s.model->eval64(e)});
        for (auto & o : s.obs) {
            if (o.v.e && o.v.e->syms && o.v.e->syms->test(0)) continue;
            sm.obs.push_back({o.name, std::to_string(o.v.conc() ? o.v.c : s.model->eval64(o.v.e))});
        }
        sm.sched = s.sched;
        if ((int)samples.size() < cfg.samples) samples.push_back(sm);
        else samples[mixh(pathsCompleted, 99) % samples.size()] = sm;
    }
    throw PathEnd{};
}

// ------------------------------------------------------------------ memory
uint32_t Engine::newObject(State & s, uint64_t size, int kind, bool zero, const char * name) {
    uint32_t id = s.nobj++;
    if (id / CH >= s.mem.size()) s.mem.push_back(std::make_shared<Chunk>());
    auto & c = s.mem[id / CH];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto o = std::make_shared<Object>();
    o->size = size; o->kind = kind; o->name = name ? name : "";
    o->b.assign(size, 0); o->st.assign(size, zero ? 0 : 2);
    c->o[id % CH] = std::move(o);
    return id;
}
Object & Engine::wobj(State & s, uint32_t id) {
    auto & c = s.mem[id / CH];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto & o = c->o[id % CH];
    if (o.use_count() > 1) o = std::make_shared<Object>(*o);
    return *o;
}
void Engine::freeObj(State & s, uint32_t id) {
    Object & o = wobj(s, id);
    auto n = std::make_shared<Object>();
    n->size = o.size; n->kind = o.kind; n->state = 1; n->name = o.name; n->sh = o.sh;
    s.mem[id / CH]->o[id % CH] = n;
}

const Object * Engine::check(State & s, uint64_t addr, uint64_t size, bool write, uint32_t & id, uint32_t & off, const char * what) {
    if (cfg.ubOnly) { ++asserts; ++assertIds[what]; }
    id = addr >> 32;
    const Object * o = id ? obj(s, id) : nullptr;
    if (!o) {
        char b[64]; snprintf(b, sizeof b, "%s of invalid address 0x%llx", what, (unsigned long long)addr);
        fail(s, addr < 0x100000000ull ? "null" : "oob", "memory", b);
    }
    int64_t rel = (int64_t)(addr & 0xffffffffull) - (int64_t)OBJ_OFF;
    if (o->state) fail(s, "uaf", "memory", std::string(what) + " of freed or out-of-scope memory");
    if (rel < 0 || (uint64_t)rel + size > o->size) {
        char b[128]; snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of a %u-byte object", what, (unsigned long long)size, (long long)rel, o->size);
        fail(s, "oob", "memory", b);
    }
    if (write && o->ro) fail(s, "oob", "memory", "write to constant memory");
    off = rel;
    return o;
}

void Engine::putByte(Object & o, uint32_t i, const SB & b) {
    if (!b.e) { o.b[i] = b.k; o.st[i] = 0; return; }
    if (b.e == UNINIT) { o.st[i] = 2; return; }
    if (o.s.empty()) o.s.resize(o.size);
    o.s[i] = b; o.st[i] = 1;
}

Val Engine::readObj(const Object & o, uint32_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool allC = true;
    for (unsigned i = 0; i < n; ++i) if (o.st[off + i]) { allC = false; break; }
    if (allC) {
        if (n <= 8) { uint64_t v = 0; memcpy(&v, &o.b[off], n); return Val(v & maskOf(w)); }
        APInt a(n * 8, 0);
        for (unsigned i = 0; i < n; ++i) a.insertBits(o.b[off + i], i * 8, 8);
        return Val::of(X.konst(a.trunc(w)));
    }
    if (o.st[off] == 1) {
        E e = o.s[off].e;
        bool whole = o.s[off].k == 0 && (e->w + 7) / 8 >= n;
        for (unsigned i = 1; whole && i < n; ++i) if (o.st[off + i] != 1 || o.s[off + i].e != e || o.s[off + i].k != i) whole = false;
        if (whole) return Val::of(X.resize(e, w));
    }
    // group adjacent bytes
    E r = nullptr;
    for (unsigned i = 0; i < n;) {
        unsigned j = i + 1;
        E piece;
        if (o.st[off + i] == 0) {
            uint64_t v = o.b[off + i];
            while (j < n && j - i < 8 && o.st[off + j] == 0) { v |= (uint64_t)o.b[off + j] << (8 * (j - i)); ++j; }
            piece = X.konst(8 * (j - i), v);
        } else if (o.st[off + i] == 1) {
            E e = o.s[off + i].e; uint32_t k = o.s[off + i].k;
            while (j < n && o.st[off + j] == 1 && o.s[off + j].e == e && o.s[off + j].k == k + (j - i) && (k + (j - i)) * 8 + 8 <= e->w) ++j;
            piece = k * 8 + 8 * (j - i) <= e->w ? X.extract(e, k * 8, 8 * (j - i)) : sbE(o.s[off + i]);
        } else piece = UNINIT;
        r = r ? X.concat(piece, r) : piece;
        i = j;
    }
    return Val::of(X.resize(r, w));
}

void Engine::raceCheck(State & s, uint32_t id, uint32_t off, uint64_t n, bool write, bool atomic) {
    if (!cfg.race || s.th.size() < 2) return;
    if (obj(s, id)->kind == 3) return;
    Object & o = wobj(s, id);
    if (!o.sh) o.sh = std::make_shared<std::map<uint32_t, Shadow>>();
    else if (o.sh.use_count() > 1) o.sh = std::make_shared<std::map<uint32_t, Shadow>>(*o.sh);
    auto & vc = s.th[s.cur].vc;
    auto before = [&](const Access & a) { return a.tid < 0 || a.tid == s.cur || ((int)vc.size() > a.tid && vc[a.tid] >= a.clk); };
    for (uint64_t i = off; i < off + n; ++i) {
        Shadow & h = (*o.sh)[i];
        // atomic accesses are ordered by the atomic object itself
        if (!atomic) {
            if (!before(h.w)) fail(s, "race", "race", "data race: unsynchronised write by another thread");
            if (write) for (auto & r : h.r) if (!before(r)) fail(s, "race", "race", "data race: unsynchronised read by another thread");
        }
        if (atomic) continue;
        if (write) { h.w = {s.cur, vc[s.cur]}; h.r.clear(); }
        else {
            bool f = false;
            for (auto & r : h.r) if (r.tid == s.cur) { r.clk = vc[s.cur]; f = true; }
            if (!f) h.r.push_back({s.cur, vc[s.cur]});
        }
    }
}

Val Engine::load(State & s, uint64_t addr, unsigned w, bool atomic) {
    uint32_t id, off;
    const Object * o = check(s, addr, (w + 7) / 8, false, id, off, "read");
    if (s.th.size() > 1) { raceCheck(s, id, off, (w + 7) / 8, false, atomic); o = obj(s, id); }
    Val v = readObj(*o, off, w);
    if (v.e && v.e->op == ITE && v.e->ctree) return Val::of(known(s, v.e));
    return v;
}

void Engine::store(State & s, uint64_t addr, const Val & v, unsigned w, bool atomic) {
    uint32_t id, off;
    unsigned n = (w + 7) / 8;
    check(s, addr, n, true, id, off, "write");
    if (s.th.size() > 1) raceCheck(s, id, off, n, true, atomic);
    Object & o = wobj(s, id);
    if (v.conc()) {
        uint64_t x = v.c;
        for (unsigned i = 0; i < n; ++i) { o.b[off + i] = i < 8 ? (uint8_t)(x >> (8 * i)) : 0; o.st[off + i] = 0; }
        return;
    }
    E e = v.e;
    if (e->isC()) {
        APInt a = e->ap();
        for (unsigned i = 0; i < n; ++i) { o.b[off + i] = a.extractBitsAsZExtValue(std::min(8u, w - i * 8), i * 8); o.st[off + i] = 0; }
        return;
    }
    if (w % 8) e = X.zext(e, n * 8);
    if (e->isC()) return store(s, addr, Val::of(e), n * 8, atomic);
    if (o.s.empty()) o.s.resize(o.size);
    for (unsigned i = 0; i < n; ++i) {
        // keep constant and uninitialised bytes visible
        if (e->op == CONCAT || e->op == ZEXT || (e->syms && e->syms->test(0))) {
            E b = X.extract(e, i * 8, 8);
            if (b->isC()) { o.b[off + i] = b->cv; o.st[off + i] = 0; continue; }
            if (b == UNINIT) { o.st[off + i] = 2; continue; }
        }
        o.s[off + i] = {e, i}; o.st[off + i] = 1;
    }
}

// load through a symbolic address
Val Engine::loadSym(State & s, const Val & addr, unsigned w, bool atomic) {
    if (addr.conc()) return load(s, addr.c, w, atomic);
    E a = known(s, addr.e);
    if (a->isC()) return load(s, a->cv, w, atomic);
    checkUninit(s, a, "address");
    unsigned n = (w + 7) / 8;
    uint32_t lo = a->mn >> 32, hi = a->mx >> 32;
    if (lo != hi) {
        // use the object the model points at
        feasible(s);
        if (a->ctree && a->ctree <= 16) return load(s, concretize(s, addr, 64, "address"), w, atomic);
        if (!s.model) unsupported(s, "symbolic address");
        uint64_t v = s.model->eval64(a);
        lo = v >> 32;
        E in = X.bin(EQ, X.extract(a, 32, 32), X.konst(32, lo));
        if (!decide(s, in)) return loadSym(s, addr, w, atomic);
    }
    const Object * o = obj(s, lo);
    if (!o || o->state || o->size < n) return load(s, concretize(s, addr, 64, "address"), w, atomic);
    E off = X.bin(SUB, a, X.konst(64, objAddr(lo)));
    E inb = X.bin(ULE, off, X.konst(64, o->size - n));
    if (!decide(s, inb)) fail(s, "oob", "memory", "read through a symbolic index outside a " + std::to_string(o->size) + "-byte object");
    o = obj(s, lo);
    uint64_t mn = off->mn, mx = std::min<uint64_t>(off->mx, o->size - n);
    if (off->mn > o->size - n) mn = 0;
    uint64_t stride = 1;
    for (unsigned k = 3; k > 0 && stride == 1; --k) { // low bits that are constant: cells of a table
        E low = X.extract(off, 0, k);
        uint64_t r;
        if (low->isC()) r = low->cv;
        else if (off->op == ADD && off->b->isC() && (low = X.extract(off->a, 0, k))->isC()) r = low->cv + off->b->cv;
        else continue;
        stride = 1ull << k; mn += (r - mn) & (stride - 1);
    }
    uint64_t cnt = mx >= mn ? (mx - mn) / stride + 1 : 0;
    bool conc = true;
    for (uint64_t i = mn; i < mx + n; ++i) if (o->st[i]) { conc = false; break; }
    if (cnt == 0 || cnt > (conc ? 512 : 80) || w > 64) return load(s, concretize(s, addr, 64, "address"), w, atomic);
    std::vector<Val> vals;
    for (uint64_t i = mn; i <= mx; i += stride) vals.push_back(readObj(*o, i, w));
    // segments: constant or affine runs of concrete values, single symbolic cells
    struct Seg { uint64_t end; E v; };
    std::vector<Seg> segs;
    for (size_t i = 0; i < vals.size();) {
        if (!vals[i].conc()) {
            size_t j = i + 1;
            while (j < vals.size() && vals[j].e == vals[i].e) ++j;
            segs.push_back({mn + (j - 1) * stride, vals[i].e}); i = j; continue;
        }
        size_t j = i + 1;
        uint64_t d = 0;
        if (j < vals.size() && vals[j].conc()) {
            d = (vals[j].c - vals[i].c) & maskOf(w);
            while (j < vals.size() && vals[j].conc() && ((vals[j].c - vals[j - 1].c) & maskOf(w)) == d) ++j;
            if (j == i + 2 && d != 0) j = i + 1; // two points are no run
        }
        if (j == i + 1 || d == 0) segs.push_back({mn + (j - 1) * stride, X.konst(w, vals[i].c)});
        else {
            // value = v0 + d * ((off - start) / stride)
            E idx = X.bin(SUB, off, X.konst(64, mn + i * stride));
            if (stride > 1) idx = X.bin(LSHR, idx, X.konst(64, stride == 2 ? 1 : stride == 4 ? 2 : 3));
            E t = X.resize(idx, w);
            if (d != 1) t = X.bin(MUL, t, X.konst(w, d));
            segs.push_back({mn + (j - 1) * stride, X.bin(ADD, t, X.konst(w, vals[i].c))});
        }
        i = j;
    }
    if (segs.size() > 64) return load(s, concretize(s, addr, 64, "address"), w, atomic);
    E r = segs.back().v;
    for (int i = (int)segs.size() - 2; i >= 0; --i) r = X.ite(X.bin(ULE, off, X.konst(64, segs[i].end)), segs[i].v, r);
    return Val::of(r);
}

void Engine::copyBytes(State & s, uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    uint32_t di, doff, si, soff;
    const Object * so = check(s, src, n, false, si, soff, "copy from");
    check(s, dst, n, true, di, doff, "copy to");
    if (s.th.size() > 1) { raceCheck(s, si, soff, n, false, false); raceCheck(s, di, doff, n, true, false); so = obj(s, si); }
    std::vector<SB> tmp(n);
    for (uint64_t i = 0; i < n; ++i) tmp[i] = byteAt(*so, soff + i);
    Object & o = wobj(s, di);
    for (uint64_t i = 0; i < n; ++i) putByte(o, doff + i, tmp[i]);
}
void Engine::setBytes(State & s, uint64_t dst, const Val & v, uint64_t n) {
    if (!n) return;
    uint32_t di, doff;
    check(s, dst, n, true, di, doff, "fill");
    if (s.th.size() > 1) raceCheck(s, di, doff, n, true, false);
    Object & o = wobj(s, di);
    SB b = v.conc() ? SB{nullptr, (uint32_t)(v.c & 0xff)} : SB{X.resize(v.e, 8), 0};
    for (uint64_t i = 0; i < n; ++i) putByte(o, doff + i, b);
}
std::string Engine::cstr(State & s, uint64_t addr) {
    std::string r;
    while (true) {
        Val v = load(s, addr++, 8);
        uint64_t c = v.conc() ? v.c : '?';
        if (!c) return r;
        r.push_back((char)c);
        if (r.size() > 4096) return r;
    }
}

uint64_t Engine::tlsAddr(State & s, uint32_t gid) {
    if (s.cur == 0) return objAddr(gid);
    auto & m = s.th[s.cur].tls;
    auto it = m.find(gid);
    if (it != m.end()) return objAddr(it->second);
    // fresh copy of the initial image
    const GlobalVariable * g = tlsGlobals.at(gid);
    uint32_t id = newObject(s, obj(s, gid)->size, 0, true, g->getName().data());
    if (g->hasInitializer() && !g->getInitializer()->isNullValue()) {
        std::vector<Leaf> lv; std::vector<Val> vs;
        flatten(g->getValueType(), lv); constVals(g->getInitializer(), vs);
        for (size_t i = 0; i < lv.size(); ++i) {
            Object & o = wobj(s, id);
            for (unsigned k = 0; k < (lv[i].w + 7) / 8 && k < 8; ++k) o.b[lv[i].off + k] = vs[i].c >> (8 * k);
        }
    }
    m[gid] = id;
    return objAddr(id);
}

// ------------------------------------------------------------------ operators
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

Val Engine::binop(State & s, unsigned op, const Val & a, const Val & b, unsigned w) {
    if (op == UDIV || op == UREM || op == SDIV || op == SREM) {
        if (b.conc()) { if (!b.c) fail(s, "div0", "div0", "integer division by zero"); }
        else if (decide(s, X.bin(EQ, b.e, w <= 64 ? X.konst(w, 0) : X.konst(APInt(w, 0))))) fail(s, "div0", "div0", "integer division by zero");
        if ((op == SDIV || op == SREM) && w <= 64) {
            E c = X.land(X.bin(EQ, a.ex(w), X.konst(w, 1ull << (w - 1))), X.bin(EQ, b.ex(w), X.konst(w, maskOf(w))));
            if (decide(s, c)) fail(s, "overflow", "overflow", "signed division overflow");
        }
    }
    if (w <= 64 && a.conc() && b.conc()) {
        uint64_t x = a.c, y = b.c, m = maskOf(w);
        switch (op) {
        case ADD: return Val((x + y) & m);
        case SUB: return Val((x - y) & m);
        case MUL: return Val((x * y) & m);
        case UDIV: return Val(x / y);
        case UREM: return Val(x % y);
        case SDIV: return Val((uint64_t)(sx(x, w) / sx(y, w)) & m);
        case SREM: return Val((uint64_t)(sx(x, w) % sx(y, w)) & m);
        case AND: return Val(x & y);
        case OR: return Val(x | y);
        case XOR: return Val(x ^ y);
        case SHL: return y >= w ? Val(0) : Val((x << y) & m);
        case LSHR: return y >= w ? Val(0) : Val(x >> y);
        case ASHR: return Val((uint64_t)(sx(x, w) >> (y >= w ? (w >= 64 ? 63 : w - 1) : y)) & m);
        }
    }
    if (op == SUB && w > 16 && w <= 64 && !a.conc() && !b.conc() && s.model && !s.unsure) {
        // small values, the difference known not to be negative on this path: keep it small
        E x = a.ex(w), y = b.ex(w);
        uint64_t m = x->mx | y->mx;
        if (m <= 0xffff && x->mn < y->mx && !(x->syms->test(0)) && !(y->syms->test(0))) {
            unsigned k = m ? 64 - __builtin_clzll(m) : 1;
            E lt = X.bin(ULT, x, y);
            bool neg;
            if (lt->isC()) neg = lt->cv;
            else if (s.model->truth(lt)) neg = true;
            else {
                uint64_t key = mixh(s.pcHash, lt->id ^ 0x5b5b5b5b00000000ull);
                auto it = memo.find(key);
                if (it != memo.end()) neg = it->second;
                else { ModelP o; neg = solver.check(Solver::slice(s.pc, lt), s.model, o, false) != UNSAT; memo[key] = neg; }
            }
            if (!neg) return Val::of(X.zext(X.bin(SUB, X.extract(x, 0, k), X.extract(y, 0, k)), w));
        }
    }
    return Val::of(X.bin((Op)op, a.ex(w), b.ex(w)));
}

Val Engine::icmp(unsigned pred, const Val & a, const Val & b, unsigned w) {
    if (w <= 64 && a.conc() && b.conc()) {
        uint64_t x = a.c, y = b.c;
        int64_t p = sx(x, w), q = sx(y, w);
        switch (pred) {
        case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y;
        case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y;
        case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y;
        case CmpInst::ICMP_SLT: return p < q; case CmpInst::ICMP_SLE: return p <= q;
        case CmpInst::ICMP_SGT: return p > q; default: return p >= q;
        }
    }
    E x = a.ex(w), y = b.ex(w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return Val::of(X.bin(EQ, x, y));
    case CmpInst::ICMP_NE: return Val::of(X.lnot(X.bin(EQ, x, y)));
    case CmpInst::ICMP_ULT: return Val::of(X.bin(ULT, x, y));
    case CmpInst::ICMP_ULE: return Val::of(X.bin(ULE, x, y));
    case CmpInst::ICMP_UGT: return Val::of(X.bin(ULT, y, x));
    case CmpInst::ICMP_UGE: return Val::of(X.bin(ULE, y, x));
    case CmpInst::ICMP_SLT: return Val::of(X.bin(SLT, x, y));
    case CmpInst::ICMP_SLE: return Val::of(X.bin(SLE, x, y));
    case CmpInst::ICMP_SGT: return Val::of(X.bin(SLT, y, x));
    default: return Val::of(X.bin(SLE, y, x));
    }
}
// 1/0 when the path condition decides c, 2 when it does not (or when that is not cheap to find out)
int Engine::forced(State & s, E c) {
    if (c->isC()) return c->cv;
    E n = X.lnot(c);
    for (auto it = s.pc.rbegin(); it != s.pc.rend(); ++it) { if (*it == c) return 1; if (*it == n) return 0; }
    if (!s.model || s.unsure || hardness(c)) return 2;
    uint64_t key = mixh(s.pcHash, c->id);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    bool v = s.model->truth(c);
    std::vector<E> pc, q;
    for (E p : s.pc) if (!hardness(p)) pc.push_back(p);
    q = Solver::slice(pc, v ? n : c);
    ModelP m;
    int r = solver.check(q, s.model, m, false) == UNSAT ? v : 2;
    memo[key] = r;
    return r;
}

Val Engine::select(State & s, const Val & c, const Val & a, const Val & b, unsigned w) {
    if (c.conc()) return c.c & 1 ? a : b;
    if (a.conc() && b.conc() && a.c == b.c) return a;
    if (int k = forced(s, c.e); k < 2) return k ? a : b;
    return Val::of(X.ite(c.e, a.ex(w), b.ex(w)));
}

// ------------------------------------------------------------------ control
void Engine::jump(Frame & f, uint32_t edge) {
    const Edge & e = f.f->edges[edge];
    if (!e.moves.empty()) {
        if (e.moves.size() == 1) f.r[e.moves[0][0]] = getv(f, e.moves[0][1]);
        else {
            Val tmp[64]; std::vector<Val> big; Val * t = tmp;
            if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); }
            for (size_t i = 0; i < e.moves.size(); ++i) t[i] = getv(f, e.moves[i][1]);
            for (size_t i = 0; i < e.moves.size(); ++i) f.r[e.moves[i][0]] = t[i];
        }
    }
    f.ip = e.ip;
}

void Engine::pushFrame(State & s, Func * f, const std::vector<Val> & args) {
    if (s.th[s.cur].st.size() > 400) fail(s, "stack", "recursion", "call depth above 400 frames");
    auto fr = std::make_shared<Frame>();
    fr->f = f;
    fr->r.resize(f->nslots);
    size_t k = 0;
    for (size_t i = 0; i < args.size() && i < f->nslots; ++i) fr->r[i] = args[i];
    for (size_t i = 0; i < f->byval.size(); ++i) {
        if (f->byval[i]) {
            uint32_t id = newObject(s, f->byval[i], 2, false, "byval");
            uint32_t sl = f->args[i].first;
            copyBytes(s, objAddr(id), fr->r[sl].c, f->byval[i]);
            fr->r[sl] = Val(objAddr(id));
            fr->allocas.push_back(id);
        }
    }
    (void)k;
    s.th[s.cur].st.push_back(fr);
}

void Engine::popFrame(State & s, const std::vector<Val> & ret) {
    auto & st = s.th[s.cur].st;
    for (uint32_t id : st.back()->allocas) freeObj(s, id);
    st.pop_back();
    if (st.empty()) return;
    Frame & c = top(s);
    const Inst & in = c.f->code[c.ip];
    for (uint32_t i = 0; i < in.n && i < ret.size(); ++i) c.r[in.dst + i] = ret[i];
    if (in.e1 != ~0u) jump(c, in.e1); else ++c.ip;
}

void Engine::call(State & s, const Inst & in) {
    Frame & f = top(s);
    Func * callee = in.callee;
    if (!callee) {
        uint64_t a = concretize(s, getv(f, in.off), 64, "call target");
        uint64_t idx = (a - 0x700000000000ull) / 16;
        if (a < 0x700000000000ull || idx >= funcList.size()) fail(s, "null", "memory", "call through an invalid function pointer");
        callee = funcList[idx].get();
    }
    std::vector<Val> args(in.ops.size()), ret;
    Frame & f2 = top(s);
    for (size_t i = 0; i < in.ops.size(); ++i) args[i] = getv(f2, in.ops[i]);
    if (callee->F->isIntrinsic()) {
        if (!intrinsic(s, in, args, ret)) unsupported(s, "intrinsic " + callee->name);
    } else {
        Func * g = getFunc(callee->F);
        if (g->h) {
            size_t depth = s.th[s.cur].st.size();
            int cur = s.cur;
            Inst tmp; const Inst * pin = &in;
            tmp.callee = callee; // handlers look at the callee for its name
            if (!in.callee) { tmp = in; tmp.callee = callee; pin = &tmp; }
            if (!g->h(*this, s, *pin, args, ret)) return; // blocked, rescheduled or a frame was pushed
            (void)depth; (void)cur;
        } else if (callee->F->isDeclaration()) {
            unsupported(s, "external function " + callee->name);
        } else { pushFrame(s, g, args); return; }
    }
    Frame & c = top(s);
    for (uint32_t i = 0; i < in.n && i < ret.size(); ++i) c.r[in.dst + i] = ret[i];
    if (in.e1 != ~0u) jump(c, in.e1); else ++c.ip;
}

// transfer control to the innermost handler; false when there is none
bool Engine::unwind(State & s, uint64_t exc) {
    auto & st = s.th[s.cur].st;
    while (!st.empty()) {
        Frame & f = top(s);
        const Inst & in = f.f->code[f.ip];
        if (in.k == K::CALL && in.e2 != ~0u) {
            f.exc = exc;
            jump(f, in.e2);
            return true;
        }
        for (uint32_t id : st.back()->allocas) freeObj(s, id);
        st.pop_back();
    }
    return false;
}

void Engine::runState(State & s) {
    try {
        while (true) step(s);
    } catch (PathEnd &) {
        ++paths;
        totalSteps += s.steps;
    }
}

void Engine::step(State & s) {
    Frame & f = top(s);
    const Inst & in = f.f->code[f.ip];
    if (++s.steps > cfg.maxSteps) fail(s, "nonterm", "termination", "no termination within " + std::to_string(cfg.maxSteps) + " steps");
    executed.insert(in.src);
    switch (in.k) {
    case K::BIN:
        for (uint32_t i = 0; i < in.n; ++i) {
            int32_t a = in.ops[0] >= 0 ? in.ops[0] + (int)i : ~(~in.ops[0] + (int)i), b = in.ops[1] >= 0 ? in.ops[1] + (int)i : ~(~in.ops[1] + (int)i);
            Val r = binop(s, in.sub, getv(f, a), getv(f, b), in.w);
            top(s).r[in.dst + i] = r;
        }
        ++top(s).ip;
        return;
    case K::ICMP:
        for (uint32_t i = 0; i < in.n; ++i) {
            int32_t a = in.ops[0] >= 0 ? in.ops[0] + (int)i : ~(~in.ops[0] + (int)i), b = in.ops[1] >= 0 ? in.ops[1] + (int)i : ~(~in.ops[1] + (int)i);
            f.r[in.dst + i] = icmp(in.sub, getv(f, a), getv(f, b), in.w);
        }
        ++f.ip;
        return;
    case K::SELECT: {
        Val c = getv(f, in.ops[0]);
        for (uint32_t i = 0; i < in.n; ++i) {
            if (in.sub) c = getv(f, in.ops[0] >= 0 ? in.ops[0] + (int)i : ~(~in.ops[0] + (int)i));
            int32_t a = in.ops[1] >= 0 ? in.ops[1] + (int)i : ~(~in.ops[1] + (int)i), b = in.ops[2] >= 0 ? in.ops[2] + (int)i : ~(~in.ops[2] + (int)i);
            f.r[in.dst + i] = select(s, c, getv(f, a), getv(f, b), in.leaves[i].w);
        }
        ++f.ip;
        return;
    }
    case K::LOAD: {
        Val a = getv(f, in.ops[0]);
        if (in.atomic && s.th.size() > 1) {
            uint64_t ad = concretize(s, a, 64, "address");
            if (cfg.atomicsVisible && !in.refcnt && !visible(s)) return;
            if (in.refcnt || in.sub >= (unsigned)AtomicOrdering::Acquire) vcAcquire(s, ad);
        }
        if (in.leaves.size() == 1) {
            Val v = a.conc() ? load(s, a.c, in.leaves[0].w, in.atomic) : loadSym(s, a, in.leaves[0].w, in.atomic);
            Frame & g = top(s); g.r[in.dst] = v; ++g.ip;
        } else {
            uint64_t ad = concretize(s, a, 64, "address");
            for (uint32_t i = 0; i < in.n; ++i) { Val v = load(s, ad + in.leaves[i].off, in.leaves[i].w, in.atomic); top(s).r[in.dst + i] = v; }
            ++top(s).ip;
        }
        return;
    }
    case K::STORE: {
        uint64_t ad = concretize(s, getv(f, in.ops[0]), 64, "address");
        if (in.atomic && s.th.size() > 1) {
            if (cfg.atomicsVisible && !in.refcnt && !visible(s)) return;
            if (in.refcnt || in.sub >= (unsigned)AtomicOrdering::Release) vcRelease(s, ad);
        }
        for (uint32_t i = 0; i < in.leaves.size(); ++i)
            store(s, ad + in.leaves[i].off, getv(top(s), in.ops[1] >= 0 ? in.ops[1] + (int)i : ~(~in.ops[1] + (int)i)), in.leaves[i].w, in.atomic);
        ++top(s).ip;
        return;
    }
    case K::GEP: {
        Val b = getv(f, in.ops[0]);
        uint64_t c = in.off; E e = nullptr;
        if (b.conc()) c += b.c; else e = b.e;
        for (auto & t : in.gep) {
            Val v = getv(f, t.opnd);
            if (v.conc()) c += (uint64_t)(sx(v.c, t.w) * t.scale);
            else {
                E x = t.w < 64 ? X.sext(v.e, 64) : X.resize(v.e, 64);
                if (t.scale != 1) {
                    int sh = -1; for (int k = 1; k < 32; ++k) if (t.scale == (1ll << k)) sh = k;
                    x = sh > 0 ? X.bin(SHL, x, X.konst(64, sh)) : X.bin(MUL, x, X.konst(64, (uint64_t)t.scale));
                }
                e = e ? X.bin(ADD, e, x) : x;
            }
        }
        f.r[in.dst] = e ? Val::of(c ? X.bin(ADD, e, X.konst(64, c)) : e) : Val(c);
        ++f.ip;
        return;
    }
    case K::ZEXT: case K::SEXT: case K::TRUNC:
        for (uint32_t i = 0; i < in.n; ++i) {
            Val v = getv(f, in.ops[0] >= 0 ? in.ops[0] + (int)i : ~(~in.ops[0] + (int)i));
            if (v.conc() && in.w2 <= 64) v = Val(in.k == K::ZEXT ? v.c : in.k == K::TRUNC ? v.c & maskOf(in.w2) : (uint64_t)sx(v.c, in.w) & maskOf(in.w2));
            else {
                E x = v.ex(in.w);
                v = Val::of(in.k == K::ZEXT ? X.zext(x, in.w2) : in.k == K::SEXT ? X.sext(x, in.w2) : X.extract(x, 0, in.w2));
            }
            f.r[in.dst + i] = v;
        }
        ++f.ip;
        return;
    case K::COPY:
        for (uint32_t i = 0; i < in.n; ++i) f.r[in.dst + i] = getv(f, in.ops[0] >= 0 ? in.ops[0] + (int)i : ~(~in.ops[0] + (int)i));
        ++f.ip;
        return;
    case K::MULTI:
        for (uint32_t i = 0; i < in.n; ++i) f.r[in.dst + i] = getv(f, in.ops[i]);
        ++f.ip;
        return;
    case K::JMP: jump(f, in.e1); return;
    case K::CONDBR: {
        Val c = getv(f, in.ops[0]);
        bool b = c.conc() ? c.c & 1 : decide(s, c.e);
        jump(top(s), b ? in.e1 : in.e2);
        return;
    }
    case K::SWITCH: {
        Val v = getv(f, in.ops[0]);
        if (v.conc()) {
            auto it = std::lower_bound(in.cases.begin(), in.cases.end(), std::make_pair(v.c, 0u));
            jump(f, it != in.cases.end() && it->first == v.c ? it->second : in.e1);
            return;
        }
        // one decision per distinct successor, contiguous values become range tests
        std::map<uint32_t, E> cond;
        std::vector<uint32_t> order;
        for (size_t i = 0; i < in.cases.size();) {
            size_t j = i + 1;
            while (j < in.cases.size() && in.cases[j].second == in.cases[i].second && in.cases[j].first == in.cases[j - 1].first + 1) ++j;
            E c = j == i + 1 ? X.bin(EQ, v.e, X.konst(in.w, in.cases[i].first))
                             : X.bin(ULE, X.bin(SUB, v.e, X.konst(in.w, in.cases[i].first)), X.konst(in.w, in.cases[j - 1].first - in.cases[i].first));
            auto & e = cond[in.cases[i].second];
            if (!e) order.push_back(in.cases[i].second);
            e = e ? X.lor(e, c) : c;
            i = j;
        }
        for (uint32_t o : order) if (o != in.e1 && decide(s, cond[o])) { jump(top(s), o); return; }
        jump(top(s), in.e1);
        return;
    }
    case K::RET: {
        std::vector<Val> ret;
        for (auto o : in.ops) ret.push_back(getv(f, o));
        popFrame(s, ret);
        auto & t = s.th[s.cur];
        if (t.st.empty()) {
            if (s.cur == 0) finish(s);
            t.ts = TS::DONE;
            vcRelease(s, 0xD000000000000000ull + s.cur);
            wake(s, 3, s.cur, true, false);
            pickNext(s);
        }
        return;
    }
    case K::CALL: call(s, in); return;
    case K::ALLOCA: {
        uint64_t n = concretize(s, getv(f, in.ops[0]), 64, "alloca size");
        uint32_t id = newObject(s, in.off * n, 2, false, in.src->getName().data());
        Frame & g = top(s);
        g.allocas.push_back(id);
        g.r[in.dst] = Val(objAddr(id));
        ++g.ip;
        return;
    }
    case K::UNREACHABLE: fail(s, "unreachable", "unreachable", "execution reaches undefined behaviour (unreachable)");
    case K::FENCE: ++f.ip; return;
    case K::CMPXCHG: {
        uint64_t ad = concretize(s, getv(f, in.ops[0]), 64, "address");
        if (cfg.atomicsVisible && !in.refcnt && !visible(s)) return;
        if (s.th.size() > 1) vcAcquire(s, ad);
        Val old = load(s, ad, in.w, true);
        Val eq = icmp(CmpInst::ICMP_EQ, old, getv(top(s), in.ops[1]), in.w);
        bool b = decide(s, eq);
        if (b) { if (s.th.size() > 1) vcRelease(s, ad); store(s, ad, getv(top(s), in.ops[2]), in.w, true); }
        Frame & g = top(s);
        g.r[in.dst] = old; g.r[in.dst + 1] = Val(b); ++g.ip;
        return;
    }
    case K::RMW: {
        uint64_t ad = concretize(s, getv(f, in.ops[0]), 64, "address");
        if (cfg.atomicsVisible && !in.refcnt && !visible(s)) return;
        if (s.th.size() > 1) { vcAcquire(s, ad); vcRelease(s, ad); }
        Val old = load(s, ad, in.w, true), v = getv(top(s), in.ops[1]), nv;
        switch (in.sub) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(s, ADD, old, v, in.w); break;
        case AtomicRMWInst::Sub: nv = binop(s, SUB, old, v, in.w); break;
        case AtomicRMWInst::And: nv = binop(s, AND, old, v, in.w); break;
        case AtomicRMWInst::Or: nv = binop(s, OR, old, v, in.w); break;
        case AtomicRMWInst::Xor: nv = binop(s, XOR, old, v, in.w); break;
        default: unsupported(s, "atomicrmw");
        }
        store(s, ad, nv, in.w, true);
        Frame & g = top(s);
        g.r[in.dst] = old; ++g.ip;
        return;
    }
    case K::LANDINGPAD: {
        // decide which clause catches: the selector is the type-info address for typed clauses, 1 for catch-all, 0 for cleanup
        auto & L = cast<LandingPadInst>(*in.src);
        uint64_t ti = 0;
        if (f.exc) ti = load(s, f.exc - 16, 64).c; // header written by __cxa_throw
        uint64_t sel = 0; bool caught = false;
        for (unsigned i = 0; i < L.getNumClauses() && !caught; ++i) {
            if (!L.isCatch(i)) { caught = true; sel = 0; continue; }
            Val c = constScalar(L.getClause(i));
            if (c.c == 0) { sel = 1; caught = true; }
            else if (c.c == ti) { sel = ti; caught = true; }
            else {
                // single inheritance: __si_class_type_info stores the base at offset 16
                uint64_t t = ti;
                for (int d = 0; d < 4 && t && !caught; ++d) {
                    const Object * o = obj(s, t >> 32);
                    if (!o || o->size < 24) break;
                    t = readObj(*o, 16, 64).c;
                    if (t == c.c) { sel = c.c; caught = true; }
                }
            }
        }
        if (!caught && !L.isCleanup()) {
            uint64_t e = f.exc;
            auto & st = s.th[s.cur].st;
            for (uint32_t id : st.back()->allocas) freeObj(s, id);
            st.pop_back();
            if (!unwind(s, e)) fail(s, "exception", "exception", "uncaught exception");
            return;
        }
        f.r[in.dst] = Val(f.exc); f.r[in.dst + 1] = Val(sel & 0xffffffff);
        if (sel > 1) f.r[in.dst + 1] = Val((sel >> 32) & 0x7fffffff);
        ++f.ip;
        return;
    }
    case K::RESUME: {
        uint64_t e = getv(f, in.ops[0]).c;
        auto & st = s.th[s.cur].st;
        for (uint32_t id : st.back()->allocas) freeObj(s, id);
        st.pop_back();
        if (!unwind(s, e)) fail(s, "exception", "exception", "uncaught exception");
        return;
    }
    case K::FP: {
        std::vector<Val> v;
        for (auto o : in.ops) { v.push_back(getv(f, o)); if (!v.back().conc()) unsupported(s, "floating point on symbolic data"); }
        auto rd = [&](uint64_t b, unsigned w) -> double { if (w == 32) { uint32_t u = b; float x; memcpy(&x, &u, 4); return x; } double x; memcpy(&x, &b, 8); return x; };
        auto wr = [&](double d, unsigned w) -> uint64_t { if (w == 32) { float x = d; uint32_t u; memcpy(&u, &x, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; };
        if ((in.w != 32 && in.w != 64 && in.w > 64)) unsupported(s, "long double");
        Val r;
        switch (in.src->getOpcode()) {
        case Instruction::FAdd: r = wr(rd(v[0].c, in.w) + rd(v[1].c, in.w), in.w2); break;
        case Instruction::FSub: r = wr(rd(v[0].c, in.w) - rd(v[1].c, in.w), in.w2); break;
        case Instruction::FMul: r = wr(rd(v[0].c, in.w) * rd(v[1].c, in.w), in.w2); break;
        case Instruction::FDiv: r = wr(rd(v[0].c, in.w) / rd(v[1].c, in.w), in.w2); break;
        case Instruction::FNeg: r = wr(-rd(v[0].c, in.w), in.w2); break;
        case Instruction::UIToFP: r = wr((double)v[0].c, in.w2); break;
        case Instruction::SIToFP: r = wr((double)sx(v[0].c, in.w), in.w2); break;
        case Instruction::FPToUI: r = (uint64_t)rd(v[0].c, in.w) & maskOf(in.w2); break;
        case Instruction::FPToSI: r = (uint64_t)(int64_t)rd(v[0].c, in.w) & maskOf(in.w2); break;
        case Instruction::FPExt: case Instruction::FPTrunc: r = wr(rd(v[0].c, in.w), in.w2); break;
        case Instruction::FCmp: {
            double a = rd(v[0].c, in.w), b = rd(v[1].c, in.w); bool un = a != a || b != b; bool o;
            switch (cast<FCmpInst>(in.src)->getPredicate()) {
            case CmpInst::FCMP_OEQ: o = a == b; break; case CmpInst::FCMP_UNE: o = a != b; break; case CmpInst::FCMP_OGT: o = a > b; break;
            case CmpInst::FCMP_OGE: o = a >= b; break; case CmpInst::FCMP_OLT: o = a < b; break; case CmpInst::FCMP_OLE: o = a <= b; break;
            case CmpInst::FCMP_UGT: o = un || a > b; break; case CmpInst::FCMP_UGE: o = un || a >= b; break; case CmpInst::FCMP_ULT: o = un || a < b; break;
            case CmpInst::FCMP_ULE: o = un || a <= b; break; case CmpInst::FCMP_UNO: o = un; break; case CmpInst::FCMP_ORD: o = !un; break;
            default: o = a == b; break;
            }
            r = Val(o); break;
        }
        default: unsupported(s, "floating point");
        }
        f.r[in.dst] = r; ++f.ip;
        return;
    }
    case K::UNSUP: case K::FREEZE: {
        std::string t; raw_string_ostream o(t); in.src->print(o);
        unsupported(s, "instruction " + o.str());
    }
    }
}

// ------------------------------------------------------------------ threads
void Engine::vcRelease(State & s, uint64_t key) {
    auto & t = s.th[s.cur];
    if ((int)t.vc.size() <= s.cur) t.vc.resize(s.cur + 1, 1);
    auto & v = s.syncVC[key];
    if (v.size() < t.vc.size()) v.resize(t.vc.size(), 0);
    for (size_t i = 0; i < t.vc.size(); ++i) v[i] = std::max(v[i], t.vc[i]);
    t.vc[s.cur]++;
}
void Engine::vcAcquire(State & s, uint64_t key) {
    auto it = s.syncVC.find(key);
    auto & t = s.th[s.cur];
    if ((int)t.vc.size() <= s.cur) t.vc.resize(s.cur + 1, 1);
    if (it == s.syncVC.end()) return;
    if (t.vc.size() < it->second.size()) t.vc.resize(it->second.size(), 0);
    for (size_t i = 0; i < it->second.size(); ++i) t.vc[i] = std::max(t.vc[i], it->second[i]);
}

bool Engine::visible(State & s) {
    if (s.th.size() < 2) return true;
    Thread & t = s.th[s.cur];
    if (t.go) { t.go = false; s.sched.push_back(s.cur); return true; }
    t.go = true;
    if (s.preempt < cfg.preemptBound) {
        for (int i = 0; i < (int)s.th.size(); ++i) {
            if (i == s.cur || s.th[i].ts != TS::RUN) continue;
            auto n = clone(s);
            n->cur = i; n->preempt++;
            n->th[i].go = true;
            ++schedules;
            work.push_back(std::move(n));
        }
    }
    return false; // retried at once with the go flag set
}

void Engine::blockCurrent(State & s, int why, uint64_t on) {
    Thread & t = s.th[s.cur];
    t.ts = TS::BLOCKED; t.why = why; t.on = on; t.go = false;
    pickNext(s);
}

void Engine::pickNext(State & s) {
    std::vector<int> r;
    for (int i = 0; i < (int)s.th.size(); ++i) if (s.th[i].ts == TS::RUN) r.push_back(i);
    if (r.empty()) fail(s, "deadlock", "deadlock", "every thread is blocked");
    for (size_t k = 1; k < r.size(); ++k) {
        auto n = clone(s);
        n->cur = r[k]; n->th[r[k]].go = true;
        ++schedules;
        work.push_back(std::move(n));
    }
    s.cur = r[0]; s.th[r[0]].go = true;
}

void Engine::wake(State & s, int why, uint64_t on, bool all, bool signal) {
    for (auto & t : s.th) {
        if (t.ts == TS::BLOCKED && t.why == why && t.on == on) {
            t.ts = TS::RUN; t.signalled = signal; t.go = false;
            if (!all) return;
        }
    }
}

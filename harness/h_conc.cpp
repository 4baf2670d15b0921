// Threads: the blocking queue, the pool and parallel evaluation under every schedule.
#define VH_LIMBS 3
#include "vh.h"
#include "expr.h"
#include "infixExpr/SymbolTable.h"
#include "parallel/ThreadPool.h"
#include <string.h>
using namespace pgbn;
using namespace pgbn::infixExpr;
using namespace pgbn::parallel;
using L = int64_t;
static void expectL(const BigInteger & b, L v) {
    uint32_t d = 0;
    for (int i = 0; i < 3; ++i) { uint32_t g = b.get2sComplement(i); sym_observe("limb", g); d |= g ^ (uint32_t)(v >> (i < 2 ? 32 * i : 63)); }
    sym_assert(d == 0, "value");
}

// ---- the pool ---------------------------------------------------------------------------------------------------
static std::atomic<int> ran[6];
static uint32_t inp[6];
static void clear() { for (int i = 0; i < 6; ++i) { ran[i] = 0; inp[i] = sym_u32("value"); } }
// tasks are submitted, the futures are asked, the pool is destroyed: each in a different order
extern "C" void unit_pool() {
    int threads = pick("threads", 3) + 1, n = pick("tasks", 4), how = pick("how", 5);
    clear();
    std::vector<std::future<uint32_t>> fu;
    {
        ThreadPool pool(threads);
        for (int i = 0; i < n; ++i) {
            fu.push_back(pool.addTask([](int k, uint32_t v) { ++ran[k]; return v + 1; }, i, inp[i]));
            if (how == 1) { uint32_t r = fu[i].get(); sym_assert(r == inp[i] + 1, "result"); sym_assert(ran[i] == 1, "ran-before-result"); }
        }
        if (how == 2) for (int i = n; i-- > 0;) { uint32_t r = fu[i].get(); sym_assert(r == inp[i] + 1, "result"); }
        if (how == 3) for (int i = 0; i < n; ++i) { fu[i].wait(); sym_assert(ran[i] == 1, "ran-before-result"); }
    } // shut down
    for (int i = 0; i < 6; ++i) sym_assert(ran[i] == (i < n), "ran-once");
    if (how == 0 || how >= 3) for (int i = 0; i < n; ++i) { uint32_t r = fu[i].get(); sym_assert(r == inp[i] + 1, "result"); }
    sym_reach("end");
}
// a task submits another task; only then the pool may be destroyed
extern "C" void unit_nestedtask() {
    int threads = pick("threads", 2) + 1, wait = pick("wait", 2);
    clear();
    std::future<uint32_t> inner, outer;
    {
        ThreadPool pool(threads);
        outer = pool.addTask([&pool, &inner]() { inner = pool.addTask([]() { ++ran[1]; return inp[1]; }); ++ran[0]; return inp[0]; });
        uint32_t r = outer.get(); sym_assert(r == inp[0], "result");
        if (wait) { r = inner.get(); sym_assert(r == inp[1], "result"); }
    }
    sym_assert(ran[0] == 1 && ran[1] == 1, "ran-once");
    if (!wait) { uint32_t r = inner.get(); sym_assert(r == inp[1], "result"); }
    sym_reach("end");
}
// two threads submit at the same time
extern "C" void unit_submitters() {
    int threads = pick("threads", 2) + 1, n = pick("tasks", 2) + 1;
    clear();
    std::vector<std::future<uint32_t>> mine, other;
    {
        ThreadPool pool(threads);
        std::thread t([&] { for (int i = 0; i < n; ++i) other.push_back(pool.addTask([i]() { ++ran[3 + i]; return inp[3 + i]; })); });
        for (int i = 0; i < n; ++i) mine.push_back(pool.addTask([i]() { ++ran[i]; return inp[i]; }));
        t.join();
    }
    for (int i = 0; i < n; ++i) {
        sym_assert(ran[i] == 1 && ran[3 + i] == 1, "ran-once");
        uint32_t a = mine[i].get(), b = other[i].get();
        sym_assert(a == inp[i] && b == inp[3 + i], "result");
    }
    sym_reach("end");
}
// a task waits for one that was submitted after it: with two workers both must get to run, whatever woke first
extern "C" void unit_dependent() {
    int warm = pick("warm", 3);
    clear();
    {
        ThreadPool pool(2);
        for (int i = 0; i < warm; ++i) { auto f = pool.addTask([i]() { ++ran[2 + i]; }); if (i == 0) f.wait(); }
        std::promise<uint32_t> p; std::shared_future<uint32_t> later = p.get_future().share();
        auto a = pool.addTask([later]() { ++ran[0]; return later.get() + 1; });
        auto b = pool.addTask([&p]() { ++ran[1]; p.set_value(inp[1]); });
        uint32_t r = a.get(); sym_assert(r == inp[1] + 1, "result");
        b.wait();
    }
    sym_assert(ran[0] == 1 && ran[1] == 1 && ran[2] == (warm > 0) && ran[3] == (warm > 1), "ran-once");
    sym_reach("end");
}
// one worker: tasks run in the order of submission
extern "C" void unit_order() {
    int n = pick("tasks", 3) + 1, order[4], k = 0;
    { ThreadPool pool(1); for (int i = 0; i < n; ++i) pool.addTask([&order, &k, i]() { order[k++] = i; }); }
    sym_assert(k == n, "ran-once");
    for (int i = 0; i < n; ++i) sym_assert(order[i] == i, "order");
    sym_reach("end");
}
// a task that throws: its future carries the exception, the pool goes on
extern "C" void unit_throwing() {
    int threads = pick("threads", 2) + 1;
    clear();
    std::future<uint32_t> a, b;
    {
        ThreadPool pool(threads);
        a = pool.addTask([]() -> uint32_t { ++ran[0]; throw 7; });
        b = pool.addTask([]() { ++ran[1]; return inp[1]; });
    }
    sym_assert(ran[0] == 1 && ran[1] == 1, "ran-once");
    uint32_t r = b.get(); sym_assert(r == inp[1], "result");
    bool thrown = false;
    try { a.get(); } catch (int) { thrown = true; }
    sym_assert(thrown, "exception-delivered");
    sym_reach("end");
}

// ---- the queue --------------------------------------------------------------------------------------------------
static bool yes() { return true; }
static void none() {}
// producers and consumers; every pushed value is popped once, the values of one producer in order
extern "C" void unit_queue() {
    int prod = pick("producers", 2) + 1, cons = pick("consumers", 2) + 1, n = pick("each", 2) + 1;
    SimpleConcurrenceQueue<int> q;
    std::vector<int> got[2];
    std::vector<std::thread> ts;
    for (int c = 0; c < cons; ++c) ts.emplace_back([&, c] {
        int v;
        while (q.pop(v)) got[c].push_back(v);
    });
    std::vector<std::thread> ps;
    for (int p = 1; p < prod; ++p) ps.emplace_back([&, p] { for (int i = 0; i < n; ++i) q.push(10 * p + i, yes, none); });
    for (int i = 0; i < n; ++i) { int v = i; q.push(v, yes, none); }
    for (auto & t : ps) t.join();
    q.notifyAllPop();
    for (auto & t : ts) t.join();
    int seen[20] = {}; size_t total = 0;
    for (int c = 0; c < cons; ++c) {
        int last[2] = {-1, -1};
        for (int v : got[c]) { ++seen[v]; ++total; sym_assert(last[v / 10] < v % 10, "order"); last[v / 10] = v % 10; }
    }
    sym_assert(total == (size_t)(prod * n), "popped-once");
    for (int p = 0; p < prod; ++p) for (int i = 0; i < n; ++i) sym_assert(seen[10 * p + i] == 1, "popped-once");
    sym_assert(q.empty(), "empty");
    sym_reach("end");
}
// the condition given to push decides, and a refused value is reported and not stored; tryPop does not block
extern "C" void unit_push() {
    SimpleConcurrenceQueue<int> q;
    bool c1 = sym_bool("accept"), c2 = sym_bool("accept"); int refused = 0;
    q.push(1, [&] { return c1; }, [&] { ++refused; });
    int two = 2; q.push(two, [&] { return c2; }, [&] { ++refused; });
    sym_assert(refused == !c1 + !c2, "refused");
    sym_assert(q.empty() == (!c1 && !c2), "empty");
    int v = 0, n = c1 + c2;
    for (int i = 0; i < n; ++i) { bool ok = pick("how", 2) ? q.pop(v) : q.tryPop(v); sym_assert(ok && v == (i == 0 && c1 ? 1 : 2), "popped"); }
    sym_assert(!q.tryPop(v) && q.empty(), "nothing-left");
    q.notifyAllPop();
    sym_assert(!q.pop(v), "released");
    q.push(5, yes, none);
    sym_assert(q.pop(v) && v == 5, "popped");
}

// ---- parallel evaluation ----------------------------------------------------------------------------------------
static void constant(const char * name, L v) { SymbolTable::getInstance()->registe(name, SymbolTable::Symbol{Value(v)}); }
static std::atomic<int> fcalls;
static const struct { const char * text; int limit; L (*f)(L, L, L); } SHAPES[] = {
    {"a", 1000, [](L a, L, L) { return a; }},
    {"-a", 1000, [](L a, L, L) { return -a; }},
    {"a+b", 1000, [](L a, L b, L) { return a + b; }},
    {"a+a", 1000, [](L a, L, L) { return a + a; }},
    {"a-b*c", 30, [](L a, L b, L c) { return a - b * c; }},
    {"(a+b)-(b+c)", 1000, [](L a, L b, L c) { return a + b - (b + c); }},
    {"a?b:c", 1000, [](L a, L b, L c) { return a ? b : c; }},
    {"(a<b?a-b:b)+c", 1000, [](L a, L b, L c) { return (a < b ? a - b : b) + c; }},
    {"f(a,b)", 1000, [](L a, L b, L) { return a - b; }},
    {"f(a+b,f(b,c))", 1000, [](L a, L b, L c) { return a + b - (b - c); }},
    {"f()", 1000, [](L, L, L) { return (L)42; }},
    {"~(a&b)|c", 1000, [](L a, L b, L c) { return ~(a & b) | c; }},
    {"a==b!=c", 1000, [](L a, L b, L c) { return (L)((L)(a == b) != c); }},
    {"a?f(b,c):f(c,b)", 1000, [](L a, L b, L c) { return a ? b - c : c - b; }},
    {"f(a,b)?a:f(b,c)+f(c,a)", 1000, [](L a, L b, L c) { return a != b ? a : b - a; }},
    {"a?b?f(a,c):b:c?f(c,b):f(a,b)", 1000, [](L a, L b, L c) { return a ? b ? a - c : b : c ? c - b : a - b; }},
    {"a+b-a+b-a+b-a+b-a+b-a+b-a+b-a+b-a+b", 1000, [](L a, L b, L) { L r = a; for (int i = 0; i < 8; ++i) r += b - a; return r + b; }},
};
constexpr int NSHAPES = sizeof SHAPES / sizeof *SHAPES;
extern "C" void unit_peval() {
    int sh = pick("shape", NSHAPES), threads = pick("threads", 4) ;
    L lim = SHAPES[sh].limit, v[3];
    for (int i = 0; i < 3; ++i) v[i] = sym_param("signs", 1) == 1 ? (L)sym_range("v", 0, 2 * lim) - lim : (L)sym_range("v", sym_param("signs", 1) == 0, lim); // any sign, positive, not negative
    constant("a", v[0]); constant("b", v[1]); constant("c", v[2]);
    fcalls = 0;
    SymbolTable::getInstance()->registe("f", SymbolTable::Symbol{Func{[](std::vector<Value> & a) -> Value {
        ++fcalls;
        if (a.empty()) return Value(42);
        Value r = a[0]; r.subAssign(a[1]); return r; }, -1}});
    BigInteger r = expr::peval(SHAPES[sh].text, threads == 3 ? -1 : threads);
    expectL(r, SHAPES[sh].f(v[0], v[1], v[2]));
    bool az = v[0] == 0, bz = v[1] == 0;
    int calls = sh == 8 || sh == 10 || sh == 13 ? 1 : sh == 9 ? 2 : sh == 14 ? v[0] != v[1] ? 1 : 3 : sh == 15 ? az || !bz : 0; // of the branches only the chosen one is evaluated
    sym_assert(fcalls == calls, "called-once");
    const char * N[] = {"a", "b", "c"}; // the constants keep their values
    for (int i = 0; i < 3; ++i) { Value & k = SymbolTable::getInstance()->get(N[i])->as<Value>(); sym_assert(k.toU64() == (uint64_t)v[i], "constant-kept"); }
    sym_reach("end");
}
// a function that throws: the exception reaches the caller whatever thread ran the function
extern "C" void unit_thrown() {
    int shape = pick("shape", 3), threads = pick("threads", 3);
    constant("a", 1); constant("b", 2);
    fcalls = 0;
    SymbolTable::getInstance()->registe("f", SymbolTable::Symbol{Func{[](std::vector<Value> &) -> Value { ++fcalls; throw 7; }, 1}});
    static const char * T[] = {"f(a)", "b+f(a)", "-f(f(a)+b)"};
    bool thrown = false;
    try { expr::peval(T[shape], threads); } catch (int x) { thrown = x == 7; }
    sym_assert(thrown, "exception-delivered");
    sym_assert(fcalls == 1, "called-once");
    sym_reach("end");
}
// two threads evaluate at the same time, with shared constants and a shared number
extern "C" void unit_evals() {
    int how = pick("how", 4);
    L a = (L)sym_range("v", 0, 200) - 100, b = (L)sym_range("v", 0, 200) - 100;
    constant("a", a); constant("b", b);
    BigInteger x, y; const BigInteger shared(a);
    std::thread t([&] { switch (how) { case 0: x = expr::eval("a+b"); break; case 1: x = shared; x += 1; break; case 2: x = expr::eval("a)"); break; default: x = expr::eval("-a"); } });
    switch (how) { case 0: y = expr::eval("a-b"); break; case 1: y = shared; y -= 1; break; case 2: y = expr::eval("b"); break; default: y = expr::peval("a", 1); }
    t.join();
    expectL(x, how == 0 ? a + b : how == 1 ? a + 1 : how == 2 ? 0 : -a);
    expectL(y, how == 0 ? a - b : how == 1 ? a - 1 : how == 2 ? b : a);
    expectL(shared, a);
    sym_reach("end");
}

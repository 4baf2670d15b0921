// Concrete replay of a recorded schedule: one thread runs at a time and control changes hands only at the operations the
// model treats as visible. The code under test is compiled with -fsanitize=thread, whose callbacks for atomics are these.
#include "sym.h"
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <future>
#include <map>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <vector>
extern "C" char __libc_single_threaded;
namespace {
struct Th { bool done = false, parked = false, signalled = false; std::function<bool()> ready; };
std::vector<int> plan;
size_t pos;
Th th[16];
int nth = 1, cur = 0;
thread_local int me = 0;
std::map<void *, int> owner;
std::map<void *, std::set<int>> waiting;
void stop(const char * what, int code) { printf("%s\n", what); fflush(stdout); _exit(code); }
void give(int t) { __atomic_store_n(&cur, t, __ATOMIC_SEQ_CST); }
void await() { while (__atomic_load_n(&cur, __ATOMIC_SEQ_CST) != me) sched_yield(); }
bool can(int t) { return !th[t].done && (!th[t].parked || th[t].ready()); }
void giveAny() {
    for (int i = 0; i < nth; ++i) if (i != me && can(i)) { give(i); return; }
    stop("DEADLOCK", 6);
}
void leave() { // this thread is over
    if (pos < plan.size()) { int n = plan[pos]; if (n >= nth || th[n].done) stop("DIVERGED", 7); give(n); }
    else giveAny();
}
void visible(std::function<bool()> ready) {
    if (nth < 2) { if (!ready()) stop("DEADLOCK", 6); return; }
    th[me].ready = ready; th[me].parked = true;
    while (true) {
        if (pos < plan.size()) {
            int n = plan[pos];
            if (n == me) { if (!ready()) stop("DIVERGED", 7); ++pos; break; }
            if (n >= nth || th[n].done) stop("DIVERGED", 7);
            give(n);
        } else {
            if (ready()) break;
            giveAny();
        }
        await();
    }
    th[me].parked = false;
}
bool always() { return true; }
}
extern "C" void sched_init(const char * s) { std::istringstream i(s); int v; while (i >> v) plan.push_back(v); }

extern "C" int pthread_mutex_lock(pthread_mutex_t * m) noexcept {
    visible([m] { return !owner.count(m); });
    owner[m] = me; return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t * m) noexcept {
    visible(always);
    if (owner.count(m)) return 16;
    owner[m] = me; return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m) noexcept { owner.erase(m); return 0; }
namespace std {
template <class S> struct Start { S * s; int id; };
template <class S> static void * threadMain(void * p) {
    Start<S> x = *(Start<S> *)p; delete (Start<S> *)p;
    me = x.id; await();
    x.s->_M_run(); delete x.s;
    static pthread_key_t key; static bool made = !pthread_key_create(&key, [](void *) { // after the destructors of thread-local objects; the thread never ends
        th[me].done = true; leave();
        while (true) pause();
    });
    if (made) pthread_setspecific(key, (void *)&th[me]);
    return nullptr;
}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
    if (nth >= 2) visible(always);
    int id = nth++;
    pthread_t t; pthread_create(&t, nullptr, threadMain<_State>, new Start<_State>{s.release(), id});
    pthread_detach(t);
    __libc_single_threaded = 1; // only one runs: reference counts are no visible operations
    _M_id = thread::id((pthread_t)(id + 1));
}
void thread::join() { int id = (int)*(unsigned long *)&_M_id - 1; visible([id] { return th[id].done; }); _M_id = thread::id(); }
void thread::detach() { _M_id = thread::id(); }
unsigned thread::hardware_concurrency() noexcept { return (unsigned)sym_param("hardware_concurrency", 2); }
void condition_variable::wait(unique_lock<mutex> & l) {
    void * m = l.mutex()->native_handle(), * c = this; int t = me;
    visible(always);
    owner.erase(m);
    th[t].signalled = false;
    if (pos < plan.size() && plan[pos] == (0x40 | t)) { ++pos; th[t].signalled = true; }
    else waiting[c].insert(t);
    if (nth < 2) stop("DEADLOCK", 6);
    visible([=] { return th[t].signalled && !owner.count(m); });
    owner[m] = t;
}
void condition_variable::notify_one() noexcept {
    visible(always);
    auto & w = waiting[(void *)this];
    if (w.empty()) return;
    int k = *w.begin();
    if (w.size() > 1 && pos < plan.size()) { if (!(plan[pos] & 0x80)) stop("DIVERGED", 7); k = plan[pos++] & 0x7f; if (!w.count(k)) stop("DIVERGED", 7); }
    w.erase(k); th[k].signalled = true;
}
void condition_variable::notify_all() noexcept {
    visible(always);
    for (int k : waiting[(void *)this]) th[k].signalled = true;
    waiting[(void *)this].clear();
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned * a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { visible([=] { return *a != v; }); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) { visible(always); }
}
#define ATOMIC(N, T, VISIBLE_LOAD) \
extern "C" T __tsan_atomic##N##_load(const volatile T * a, int mo) { if (VISIBLE_LOAD && mo) visible(always); return *a; } \
extern "C" void __tsan_atomic##N##_store(volatile T * a, T v, int) { visible(always); *a = v; } \
extern "C" T __tsan_atomic##N##_exchange(volatile T * a, T v, int) { visible(always); T o = *a; *a = v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_add(volatile T * a, T v, int) { visible(always); T o = *a; *a = o + v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_sub(volatile T * a, T v, int) { visible(always); T o = *a; *a = o - v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_and(volatile T * a, T v, int) { visible(always); T o = *a; *a = o & v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_or(volatile T * a, T v, int) { visible(always); T o = *a; *a = o | v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_xor(volatile T * a, T v, int) { visible(always); T o = *a; *a = o ^ v; return o; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { visible(always); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { visible(always); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T * a, T c, T v, int, int) { visible(always); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, unsigned char, 1)
ATOMIC(16, unsigned short, 1)
ATOMIC(32, unsigned, 1)
ATOMIC(64, unsigned long, 0)
extern "C" void __tsan_init() {}
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// Models of the parts of libstdc++/libc that live in shared libraries. Linked into the bitcode only.
#include "sym.h"
#include <cctype>
#include <condition_variable>
#include <cstring>
#include <exception>
#include <future>
#include <mutex>
#include <string>
#include <system_error>
#include <thread>
#include <unordered_map>

template class std::basic_string<char>;

// ---- unordered containers: growth policy (any policy is admissible; the number of buckets is not observable by the library)
namespace std { namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t b = 13; while (b < n) b = b * 2 + 1; return b; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
    if (ne + ni > nb || nb < 13) { std::size_t b = nb < 13 ? 13 : nb; while (b < ne + ni) b = b * 2 + 1; return {b != nb, b}; }
    return {false, 0};
}
}
size_t _Hash_bytes(const void * p, size_t n, size_t seed) {
    const unsigned char * c = (const unsigned char *)p; size_t h = seed;
    for (size_t i = 0; i < n; ++i) h = h * 31 + c[i];
    return h;
}
}

// ---- threads
namespace std {
thread::_State::~_State() = default;
template <class S> static void threadMain(void * p) { unique_ptr<S> s((S *)p); s->_M_run(); }
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id((pthread_t)sym_thread_create(threadMain<_State>, s.release()) + 1); }
void thread::join() { sym_thread_join((int)(_M_id._M_thread - 1)); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return (unsigned)sym_param("hardware_concurrency", 2); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> & l) { sym_cond_wait((void *)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { sym_cond_notify_one((void *)this); }
void condition_variable::notify_all() noexcept { sym_cond_notify_all((void *)this); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned * a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { sym_futex_wait(a, v); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned * a) { sym_futex_wake(a); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
exception::~exception() noexcept {}
const char * exception::what() const noexcept { return "std::exception"; }
}
namespace std {
__thread void * __once_callable;
__thread void (*__once_call)();
}
// ---- exceptions in flight: the pointer is the thrown object, never freed
extern "C" {
void model_current_exception(void ** out) __asm__("_ZSt17current_exceptionv");
void model_current_exception(void ** out) { *out = sym_current_exception(); }
void model_rethrow(void ** p) __asm__("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE");
void model_rethrow(void ** p) { sym_rethrow(*p); }
void model_exception_ptr1(void ** self, void * e) __asm__("_ZNSt15__exception_ptr13exception_ptrC1EPv");
void model_exception_ptr1(void ** self, void * e) { *self = e; }
void model_exception_ptr2(void ** self, void * e) __asm__("_ZNSt15__exception_ptr13exception_ptrC2EPv");
void model_exception_ptr2(void ** self, void * e) { *self = e; }
struct LogicError { void * vptr; uint64_t what; };
void model_logic_error(LogicError * self, const void *) __asm__("_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void model_logic_error(LogicError * self, const void *) { self->vptr = nullptr; self->what = 0; }
void model_logic_error_copy(LogicError * self, const LogicError * o) __asm__("_ZNSt11logic_errorC2ERKS_");
void model_logic_error_copy(LogicError * self, const LogicError * o) { *self = *o; }
void model_future_error_dtor(void *) __asm__("_ZNSt12future_errorD1Ev");
void model_future_error_dtor(void *) {}
}
namespace {
struct FutureCategory : std::error_category {
    const char * name() const noexcept override { return "future"; }
    std::string message(int) const override { return "future"; }
};
}
namespace std {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int c) const noexcept { return error_condition(c, *this); }
bool error_category::equivalent(int, const error_condition &) const noexcept { return false; }
bool error_category::equivalent(const error_code &, int) const noexcept { return false; }
const error_category & future_category() noexcept { static const FutureCategory c; return c; }
}
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(pthread_once_t * c, void (*f)()) noexcept(false) {
    if (*(volatile int *)c == 0) { *(volatile int *)c = 2; f(); }
    return 0;
}

// ---- C library, "C" locale
extern "C" {
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isdigit(c) || isalpha(c); }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcmp(const char * a, const char * b) noexcept {
    for (;; ++a, ++b) {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
void * model_memchr(const void * p, int c, size_t n) __asm__("memchr");
void * model_memchr(const void * p, int c, size_t n) {
    const unsigned char * s = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void *)(s + i);
    return nullptr;
}
long __isoc23_strtol(const char * s, char ** end, int base) noexcept {
    while (isspace((unsigned char)*s)) ++s;
    bool neg = false;
    if (*s == '+' || *s == '-') neg = *s++ == '-';
    long v = 0;
    if (base == 0) base = 10;
    while (true) {
        int c = *s, d = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99;
        if (d >= base) break;
        v = v * base + d; ++s;
    }
    if (end) *end = (char *)s;
    return neg ? -v : v;
}
}

// sprintf/snprintf: %[-][0][width][.precision][l|ll|h|hh|z]{d,i,u,x,X,o,c,s,p,%}; anything else is not modelled
extern "C" void format_not_modelled();
extern "C" int model_format(char * out, size_t cap, const char * f, const uint64_t * a) {
    size_t n = 0;
    auto put = [&](char c) { if (n + 1 < cap) out[n] = c; ++n; };
    for (; *f; ++f) {
        if (*f != '%') { put(*f); continue; }
        ++f;
        bool left = false, zero = false, plus = false;
        for (;; ++f) {
            if (*f == '-') left = true;
            else if (*f == '0') zero = true;
            else if (*f == '+') plus = true;
            else break;
        }
        size_t width = 0; bool hasPrec = false; size_t prec = 0;
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { hasPrec = true; ++f; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        int lng = 0;
        for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j') lng++; else if (*f == 'h') lng--; else break; }
        char tmp[72]; const char * s = tmp; size_t len = 0; bool num = false;
        switch (*f) {
        case '%': put('%'); continue;
        case 'c': tmp[0] = (char)*a++; len = 1; break;
        case 's': s = (const char *)*a++; while ((!hasPrec || len < prec) && s[len]) ++len; break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
            num = true;
            uint64_t v = *a++;
            bool sg = *f == 'd' || *f == 'i', neg = false;
            if (lng <= 0) v = sg ? (uint64_t)(int64_t)(int32_t)v : (uint32_t)v;
            if (lng == -1) v = sg ? (uint64_t)(int64_t)(int16_t)v : (uint16_t)v;
            if (lng == -2) v = sg ? (uint64_t)(int64_t)(int8_t)v : (uint8_t)v;
            if (sg && (int64_t)v < 0) { neg = true; v = 0 - v; }
            unsigned b = *f == 'o' ? 8 : *f == 'x' || *f == 'X' ? 16 : 10;
            char * e = tmp + sizeof tmp; char * q = e;
            if (v || !hasPrec || prec) do { unsigned d = v % b; *--q = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= b; } while (v);
            if (hasPrec) while ((size_t)(e - q) < prec) *--q = '0';
            if (zero && !left && !hasPrec) while ((size_t)(e - q) + neg < width && q > tmp + 1) *--q = '0';
            if (neg) *--q = '-'; else if (plus && sg) *--q = '+';
            s = q; len = e - q;
            break;
        }
        default: format_not_modelled();
        }
        (void)num;
        if (!left) for (size_t i = len; i < width; ++i) put(' ');
        for (size_t i = 0; i < len; ++i) put(s[i]);
        if (left) for (size_t i = len; i < width; ++i) put(' ');
    }
    if (cap) out[n < cap ? n : cap - 1] = 0;
    return (int)n;
}

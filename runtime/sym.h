// Harness interface. In the bitcode these functions are interpreted by symx; in a replay they are provided by native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t sym_u8(const char * name);
uint16_t sym_u16(const char * name);
uint32_t sym_u32(const char * name);
uint64_t sym_u64(const char * name);
bool sym_bool(const char * name);
uint64_t sym_range(const char * name, uint64_t lo, uint64_t hi); // lo <= result <= hi
uint32_t sym_choice(const char * name, uint32_t n);              // 0 <= result < n, one path per value
uint64_t sym_param(const char * name, uint64_t dflt);            // bound given on the command line
void sym_assume(bool c);
void sym_assert(bool c, const char * id);
void sym_fail(const char * id);
void sym_reach(const char * id);
uint64_t sym_concretize(uint64_t v);
void sym_observe(const char * name, uint64_t v);
void sym_expect_exit(int code);
bool sym_is_symbolic();
int64_t sym_heap_live();
void sym_log(const char * name, uint64_t v);
// thread primitives of the model
int sym_thread_create(void (*fn)(void *), void * arg);
void sym_thread_join(int id);
void sym_cond_wait(void * c, void * m);
void sym_cond_notify_one(void * c);
void sym_cond_notify_all(void * c);
void sym_futex_wait(void * addr, uint32_t val);
void sym_futex_wake(void * addr);
int sym_threads_alive();
void * sym_current_exception();
void sym_rethrow(void * e);
}

// Concrete counterpart of the harness interface: runs one unit on the inputs of a counterexample or sample path.
//   replay UNIT FILE     FILE: lines "i <name> <value>" (inputs), "p <name> <value>" (bounds)
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
static std::map<std::string, uint64_t> inputs, params;
static std::map<std::string, int> seen;
static int expectExit = -1;
static bool quiet = false;
static bool in(const char * name, uint64_t & v) {
    std::string n = name;
    int k = seen[n]++;
    if (k) n += "#" + std::to_string(k);
    auto it = inputs.find(n);
    if (it == inputs.end()) return false;
    v = it->second;
    return true;
}
static void end(const char * what, const char * id, int code) {
    printf("%s %s\n", what, id);
    fflush(stdout);
    _exit(code);
}
extern "C" {
uint8_t sym_u8(const char * n) { uint64_t v = 0; in(n, v); return v; }
uint16_t sym_u16(const char * n) { uint64_t v = 0; in(n, v); return v; }
uint32_t sym_u32(const char * n) { uint64_t v = 0; in(n, v); return v; }
uint64_t sym_u64(const char * n) { uint64_t v = 0; in(n, v); return v; }
bool sym_bool(const char * n) { uint64_t v = 0; in(n, v); return v & 1; }
uint64_t sym_range(const char * n, uint64_t lo, uint64_t hi) { uint64_t v = lo; in(n, v); if (v < lo || v > hi) end("ASSUME", n, 4); return v; }
uint32_t sym_choice(const char * n, uint32_t k) { uint64_t v = 0; in(n, v); if (v >= k) end("ASSUME", n, 4); return v; }
uint64_t sym_param(const char * n, uint64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
void sym_assume(bool c) { if (!c) end("ASSUME", "", 4); }
void sym_assert(bool c, const char * id) { if (!c) end("VIOLATED", id, 3); }
void sym_fail(const char * id) { end("VIOLATED", id, 3); }
void sym_reach(const char *) {}
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_observe(const char * n, uint64_t v) { if (!quiet) printf("OBS %s %llu\n", n, (unsigned long long)v); }
void sym_expect_exit(int c) { expectExit = c; }
bool sym_is_symbolic() { return false; }
int64_t sym_heap_live() { return 0; }
void sym_log(const char *, uint64_t) {}
void sched_init(const char *) __attribute__((weak));
}
static void atEnd() { printf("EXIT\n"); fflush(stdout); }
// the library must not end the process: exit() is a violation unless the harness expects it
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int c) { if (c == expectExit) end("OK", "", 0); printf("EXIT-CALLED %d\n", c); fflush(stdout); _exit(5); }
int main(int argc, char ** argv) {
    if (argc < 3) return 2;
    (void)atEnd;
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string k, n; uint64_t v;
        s >> k >> n >> v;
        if (k == "i") inputs[n] = v; else if (k == "p") params[n] = v; else if (k == "s" && sched_init) sched_init(line.c_str() + 2);
    }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no unit %s\n", argv[1]); return 2; }
    fn();
    end("OK", "", 0);
}

// Symbolic executor for LLVM bitcode.
#pragma once
#include "expr.h"
#include "solver.h"
#include <functional>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <map>
#include <set>
#include <unordered_set>

struct Val {
    uint64_t c = 0;
    E e = nullptr;
    Val() = default;
    Val(uint64_t v) : c(v) {}
    static Val of(E x) { Val r; if (x->isC() && x->w <= 64) r.c = x->cv; else r.e = x; return r; }
    bool conc() const { return !e; }
    E ex(unsigned w) const { return e ? e : X.konst(w, c); }
};

// ---------------------------------------------------------------- decoded code
enum class K : uint8_t { BIN, ICMP, SELECT, LOAD, STORE, GEP, ZEXT, SEXT, TRUNC, COPY, JMP, CONDBR, SWITCH, RET, CALL,
                         ALLOCA, FREEZE, UNREACHABLE, CMPXCHG, RMW, FENCE, LANDINGPAD, RESUME, MULTI, FP, UNSUP };
struct Leaf { uint32_t off, w; }; // byte offset and bit width of one scalar of a type
struct GepTerm { int32_t opnd; uint32_t w; int64_t scale; };
struct Edge { uint32_t ip; std::vector<std::array<int32_t, 2>> moves; };
struct Func;
struct Inst {
    K k;
    uint8_t sub = 0;        // Op / predicate / RMW kind / ordering
    bool atomic = false, refcnt = false;
    uint32_t w = 0, w2 = 0; // operand width, result width
    int32_t dst = -1;
    uint32_t n = 1;         // number of scalars of the result
    std::vector<int32_t> ops;
    std::vector<uint32_t> lanes;
    std::vector<Leaf> leaves;
    std::vector<GepTerm> gep;
    int64_t off = 0;
    uint32_t e1 = 0, e2 = 0;
    std::vector<std::pair<uint64_t, uint32_t>> cases;
    Func * callee = nullptr;
    const llvm::Instruction * src = nullptr;
};
struct Frame;
struct State;
struct Engine;
// returns false when the call must be retried later (thread blocked)
using Handler = bool (*)(Engine &, State &, const Inst &, std::vector<Val> & a, std::vector<Val> & ret);
struct Func {
    llvm::Function * F = nullptr;
    std::string name;
    bool decoded = false;
    std::vector<Inst> code;
    std::vector<Edge> edges;
    uint32_t nslots = 0;
    std::vector<std::pair<uint32_t, uint32_t>> args; // first slot, width of the scalar (0: aggregate)
    std::vector<uint32_t> byval;                     // size when the argument is passed by value in memory
    Handler h = nullptr;
    uint64_t addr = 0;
};

// ---------------------------------------------------------------- memory
struct SB { E e = nullptr; uint32_t k = 0; }; // byte k of expression e
struct Access { int tid; uint32_t clk; };
struct Shadow { Access w{-1, 0}; std::vector<Access> r; };
struct Object {
    uint32_t size = 0;
    uint8_t state = 0; // 0 live, 1 freed / out of scope
    uint8_t kind = 0;  // 0 global, 1 heap, 2 stack, 3 opaque external
    bool ro = false;
    std::vector<uint8_t> b, st; // st: 0 concrete 1 symbolic 2 uninitialised
    std::vector<SB> s;
    std::shared_ptr<std::map<uint32_t, Shadow>> sh;
    const char * name = "";
};
constexpr uint64_t OBJ_OFF = 0x10000;
inline uint64_t objAddr(uint32_t id) { return ((uint64_t)id << 32) + OBJ_OFF; }
constexpr int CH = 64;
struct Chunk { std::shared_ptr<Object> o[CH]; };

struct Frame {
    Func * f;
    uint32_t ip = 0;
    std::vector<Val> r;
    std::vector<uint32_t> allocas;
    uint64_t exc = 0; // exception being delivered to this frame
};
enum class TS : uint8_t { RUN, BLOCKED, DONE };
struct Thread {
    std::vector<std::shared_ptr<Frame>> st;
    TS ts = TS::RUN;
    int why = 0;            // 1 mutex 2 cond 3 join 4 futex 5 guard
    uint64_t on = 0;
    bool go = false;        // may perform its pending visible operation
    bool signalled = false; // woken from a futex
    uint64_t condSig = 0;   // condition variable whose wake-up this thread consumed; it must take the mutex again
    std::map<uint32_t, uint32_t> tls;
    std::vector<uint64_t> caught; // exceptions being handled
    std::vector<uint32_t> vc;
};
struct State {
    uint64_t id = 0;
    std::vector<std::shared_ptr<Chunk>> mem;
    uint32_t nobj = 1;
    std::vector<Thread> th;
    int cur = 0;
    std::vector<E> pc;
    uint64_t pcHash = 0;
    ModelP model;
    bool unsure = false;
    std::vector<std::pair<E, uint64_t>> fixed;
    std::vector<std::pair<std::string, E>> inputs;
    struct Obs { std::string name; Val v; uint32_t w; };
    std::vector<Obs> obs;
    std::map<std::string, int> names;
    int expectExit = -1;
    bool inUnit = false;
    uint64_t steps = 0;
    uint32_t forks = 0;
    int64_t heapLive = 0;
    std::vector<uint8_t> sched;
    int preempt = 0, spurious = 0;
    std::map<uint64_t, int> mutexOwner;                 // address -> thread
    std::map<uint64_t, std::vector<uint32_t>> syncVC;   // release clocks
    std::set<std::string> asserted;
    uint32_t assertsDone = 0;
};
using StateP = std::unique_ptr<State>;

struct PathEnd {};

struct Violation {
    std::string kind, id, msg, loc;
    std::vector<std::string> stack;
    std::vector<std::pair<std::string, uint64_t>> inputs;
    std::vector<uint8_t> sched;
};

struct Config {
    std::string unit;
    std::map<std::string, uint64_t> params;
    uint64_t maxSteps = 30000000;
    uint64_t maxPaths = 1000000;
    double timeLimit = 600;
    int maxViol = 3;
    bool threads = false, atomicsVisible = false;
    int preemptBound = 2, spuriousBound = 0;
    int samples = 3;
    bool race = true;
    bool uninitCheck = true;
    int verbose = 0;
    bool liaFirst = false;
    bool ubOnly = false; // only undefined behaviour counts: what the harness asserts is passed over
};

struct Engine {
    llvm::LLVMContext ctx;
    std::unique_ptr<llvm::Module> M;
    const llvm::DataLayout * DL = nullptr;
    Config cfg;
    Solver solver;
    std::unordered_map<const llvm::Function *, Func *> funcs;
    std::vector<std::unique_ptr<Func>> funcList;
    std::vector<Val> consts;
    std::map<std::pair<uint64_t, E>, int32_t> constIdx;
    std::unordered_map<const llvm::GlobalVariable *, uint32_t> globals;
    std::unordered_map<uint32_t, const llvm::GlobalVariable *> tlsGlobals;
    E UNINIT = nullptr, UNINIT2 = nullptr; // symbols 0 and 1
    uint64_t nextId = 1;
    std::vector<StateP> work;
    std::unordered_map<uint64_t, int> memo; // (pc hash, cond) -> forced 0/1, 2 both
    std::unordered_set<const llvm::Instruction *> executed;

    // statistics
    uint64_t paths = 0, pathsCompleted = 0, pathsAssumedAway = 0, pathsUnsure = 0, totalSteps = 0, states = 0, asserts = 0, assertsSym = 0,
             assertsUnknown = 0, branches = 0, branchUnknown = 0, schedules = 0, maxForks = 0;
    std::vector<Violation> viol;
    std::map<std::string, int> violCount;
    std::set<std::string> incomplete;
    std::map<std::string, uint64_t> reached;
    std::map<std::string, uint64_t> assertIds;
    struct Sample { std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::pair<std::string, std::string>> obs; std::vector<uint8_t> sched; };
    std::vector<Sample> samples;

    // setup
    bool load(const std::string & path);
    void initGlobals(State & s);
    void registerBuiltins();
    void run(const std::string & unit);
    // decode
    Func * getFunc(llvm::Function * F);
    void decode(Func * f);
    int32_t konstOp(const Val & v);
    void flatten(llvm::Type * t, std::vector<Leaf> & out, uint32_t base = 0);
    uint32_t nslots(llvm::Type * t);
    void constVals(const llvm::Constant * c, std::vector<Val> & out);
    Val constScalar(const llvm::Constant * c);
    int32_t lastConstBase(const std::vector<Val> & v);
    // state
    StateP clone(State & s);
    void addPc(State & s, E c);
    bool decide(State & s, E c);
    bool decide(State & s, const Val & c) { return c.conc() ? c.c & 1 : decide(s, c.e); }
    uint64_t concretize(State & s, const Val & v, unsigned w, const char * why);
    bool feasible(State & s); // makes sure a model exists; throws PathEnd if infeasible
    void assume(State & s, const Val & c);
    void assertion(State & s, const Val & c, const std::string & id);
    E substUninit(E e, E by, std::unordered_map<E, E> & memo);
    E known(State & s, E e);
    void checkUninit(State & s, E e, const char * what);
    void report(State & s, const std::string & kind, const std::string & id, const std::string & msg, const std::vector<E> & cs);
    [[noreturn]] void fail(State & s, const std::string & kind, const std::string & id, const std::string & msg);
    [[noreturn]] void unsupported(State & s, const std::string & what);
    [[noreturn]] void finish(State & s);
    std::string where(State & s, std::vector<std::string> * stack = nullptr);
    // memory
    uint32_t newObject(State & s, uint64_t size, int kind, bool zero, const char * name = "");
    const Object * obj(State & s, uint32_t id) { return id < s.nobj ? s.mem[id / CH]->o[id % CH].get() : nullptr; }
    Object & wobj(State & s, uint32_t id);
    void freeObj(State & s, uint32_t id);
    const Object * check(State & s, uint64_t addr, uint64_t size, bool write, uint32_t & id, uint32_t & off, const char * what);
    Val load(State & s, uint64_t addr, unsigned w, bool atomic = false);
    Val loadSym(State & s, const Val & addr, unsigned w, bool atomic = false);
    void store(State & s, uint64_t addr, const Val & v, unsigned w, bool atomic = false);
    SB byteAt(const Object & o, uint32_t i) { if (o.st[i] == 1) return o.s[i]; if (o.st[i] == 2) return {UNINIT, 0}; return {nullptr, o.b[i]}; }
    E byteE(const Object & o, uint32_t i) { SB b = byteAt(o, i); return b.e ? sbE(b) : X.konst(8, b.k); }
    E sbE(const SB & b) { return b.e->w <= 8 ? X.zext(b.e, 8) : b.k * 8 + 8 <= b.e->w ? X.extract(b.e, b.k * 8, 8) : X.zext(X.extract(b.e, b.k * 8, b.e->w - b.k * 8), 8); }
    void putByte(Object & o, uint32_t i, const SB & b);
    Val readObj(const Object & o, uint32_t off, unsigned w);
    void copyBytes(State & s, uint64_t dst, uint64_t src, uint64_t n);
    void setBytes(State & s, uint64_t dst, const Val & v, uint64_t n);
    std::string cstr(State & s, uint64_t addr);
    void raceCheck(State & s, uint32_t id, uint32_t off, uint64_t n, bool write, bool atomic);
    uint64_t tlsAddr(State & s, uint32_t gid);
    // interpretation
    void runState(State & s);
    void step(State & s);
    void pushFrame(State & s, Func * f, const std::vector<Val> & args);
    void popFrame(State & s, const std::vector<Val> & ret);
    bool unwind(State & s, uint64_t exc);
    Frame & top(State & s);
    Val getv(Frame & f, int32_t op) { return op >= 0 ? f.r[op] : consts[~op]; }
    void jump(Frame & f, uint32_t edge);
    Val binop(State & s, unsigned op, const Val & a, const Val & b, unsigned w);
    Val icmp(unsigned pred, const Val & a, const Val & b, unsigned w);
    int forced(State & s, E c);
    Val select(State & s, const Val & c, const Val & a, const Val & b, unsigned w);
    void call(State & s, const Inst & in);
    bool intrinsic(State & s, const Inst & in, std::vector<Val> & a, std::vector<Val> & ret);
    // threads
    bool visible(State & s);          // false: another thread was scheduled instead
    void blockCurrent(State & s, int why, uint64_t on);
    void pickNext(State & s);
    void wake(State & s, int why, uint64_t on, bool all, bool signal);
    void vcRelease(State & s, uint64_t key);
    void vcAcquire(State & s, uint64_t key);
    void output(FILE * f, double wall);
};
extern std::unordered_map<std::string, Handler> builtinTable;
double nowSec();

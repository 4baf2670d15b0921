// symx: symbolic execution of one harness entry point.
#include "engine.h"
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

static std::string js(const std::string & s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

void Engine::output(FILE * o, double wall) {
    fprintf(o, "{\n \"unit\": %s,\n \"wall\": %.3f,\n", js(cfg.unit).c_str(), wall);
    fprintf(o, " \"paths\": %llu, \"completed\": %llu, \"assumed_away\": %llu, \"unsure\": %llu, \"steps\": %llu, \"forks\": %llu, \"asserts\": %llu, \"asserts_symbolic\": %llu, \"asserts_unknown\": %llu, \"branches\": %llu, \"branch_unknown\": %llu, \"schedule_choices\": %llu, \"max_depth\": %llu,\n",
            (unsigned long long)paths, (unsigned long long)pathsCompleted, (unsigned long long)pathsAssumedAway, (unsigned long long)pathsUnsure, (unsigned long long)totalSteps, (unsigned long long)states,
            (unsigned long long)asserts, (unsigned long long)assertsSym, (unsigned long long)assertsUnknown, (unsigned long long)branches, (unsigned long long)branchUnknown, (unsigned long long)schedules, (unsigned long long)maxForks);
    auto & t = solver.st;
    fprintf(o, " \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"bv_queries\": %llu, \"lia_queries\": %llu, \"lia_unsat\": %llu, \"solver_time\": %.3f, \"max_query\": %.3f, \"exprs\": %zu,\n",
            (unsigned long long)t.queries, (unsigned long long)t.sat, (unsigned long long)t.unsat, (unsigned long long)t.unknown, (unsigned long long)t.cacheHits, (unsigned long long)t.modelHits, (unsigned long long)t.bv, (unsigned long long)t.lia, (unsigned long long)t.liaUnsat, t.time, t.maxTime, X.all.size());
    auto inputs = [&](const std::vector<std::pair<std::string, uint64_t>> & in) {
        fprintf(o, "[");
        for (size_t i = 0; i < in.size(); ++i) fprintf(o, "%s[%s, %llu]", i ? ", " : "", js(in[i].first).c_str(), (unsigned long long)in[i].second);
        fprintf(o, "]");
    };
    auto sched = [&](const std::vector<uint8_t> & v) { fprintf(o, "["); for (size_t i = 0; i < v.size(); ++i) fprintf(o, "%s%u", i ? "," : "", v[i]); fprintf(o, "]"); };
    fprintf(o, " \"violations\": [");
    for (size_t i = 0; i < viol.size(); ++i) {
        auto & v = viol[i];
        fprintf(o, "%s\n  {\"kind\": %s, \"id\": %s, \"msg\": %s, \"loc\": %s, \"inputs\": ", i ? "," : "", js(v.kind).c_str(), js(v.id).c_str(), js(v.msg).c_str(), js(v.loc).c_str());
        inputs(v.inputs);
        fprintf(o, ", \"sched\": "); sched(v.sched);
        fprintf(o, ", \"stack\": [");
        for (size_t k = 0; k < v.stack.size() && k < 24; ++k) fprintf(o, "%s%s", k ? ", " : "", js(v.stack[k]).c_str());
        fprintf(o, "]}");
    }
    fprintf(o, "],\n \"incomplete\": [");
    { bool f = true; for (auto & x : incomplete) { fprintf(o, "%s%s", f ? "" : ", ", js(x).c_str()); f = false; } }
    fprintf(o, "],\n \"reached\": {");
    { bool f = true; for (auto & [k, n] : reached) { fprintf(o, "%s%s: %llu", f ? "" : ", ", js(k).c_str(), (unsigned long long)n); f = false; } }
    fprintf(o, "},\n \"assert_ids\": {");
    { bool f = true; for (auto & [k, n] : assertIds) { fprintf(o, "%s%s: %llu", f ? "" : ", ", js(k).c_str(), (unsigned long long)n); f = false; } }
    fprintf(o, "},\n \"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) {
        fprintf(o, "%s\n  {\"inputs\": ", i ? "," : ""); inputs(samples[i].inputs);
        fprintf(o, ", \"obs\": [");
        for (size_t k = 0; k < samples[i].obs.size(); ++k) fprintf(o, "%s[%s, %s]", k ? ", " : "", js(samples[i].obs[k].first).c_str(), js(samples[i].obs[k].second).c_str());
        fprintf(o, "], \"sched\": "); sched(samples[i].sched); fprintf(o, "}");
    }
    std::set<std::string> fns;
    for (auto * I : executed)
        for (const DILocation * L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
            auto * sp = L->getScope()->getSubprogram();
            if (!sp || !sp->getFilename().contains("/repo/")) continue;
            StringRef fn = sp->getFilename();
            fns.insert(fn.substr(fn.find("/repo/") + 6).str() + ": " + (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())));
        }
    fprintf(o, "],\n \"functions\": [");
    { bool f = true; for (auto & x : fns) { fprintf(o, "%s%s", f ? "" : ",\n  ", js(x).c_str()); f = false; } }
    fprintf(o, "]\n}\n");
}

void Engine::run(const std::string & unit) {
    auto init = std::make_unique<State>();
    init->mem.push_back(std::make_shared<Chunk>());
    init->model = std::make_shared<Model>();
    init->th.resize(1);
    initGlobals(*init);
    if (auto * g = M->getNamedGlobal("__libc_single_threaded")) { Object & o = wobj(*init, globals[g]); o.b[0] = cfg.threads ? 0 : 1; }
    // type_info vtables etc. are opaque; run the constructors of the program
    std::vector<std::pair<int, Function *>> ctors;
    if (auto * g = M->getNamedGlobal("llvm.global_ctors"))
        if (auto * ca = dyn_cast_or_null<ConstantArray>(g->getInitializer()))
            for (auto & op : ca->operands()) {
                auto * st = cast<ConstantStruct>(op);
                if (auto * f = dyn_cast<Function>(st->getOperand(1))) ctors.push_back({(int)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto & a, auto & b) { return a.first < b.first; });
    Func * u = nullptr;
    for (auto & f : funcList) if (f->name == unit) u = f.get();
    if (!u || u->F->isDeclaration()) { incomplete.insert("no such unit"); return; }
    getFunc(u->F);
    State & s = *init;
    for (auto & [p, f] : ctors) {
        pushFrame(s, getFunc(f), {});
        try {
            size_t base = 0;
            while (s.th[0].st.size() > base) {
                // the last frame's return would end the path; stop just before
                if (s.th[0].st.size() == 1 && s.th[0].st[0]->f->code[s.th[0].st[0]->ip].k == K::RET) { for (uint32_t id : s.th[0].st[0]->allocas) freeObj(s, id); s.th[0].st.clear(); break; }
                step(s);
            }
        } catch (PathEnd &) { incomplete.insert("global constructor failed"); return; }
    }
    s.steps = 0; s.heapLive = 0; executed.clear();
    pushFrame(s, u, {});
    work.push_back(std::move(init));
    double start = nowSec();
    while (!work.empty()) {
        if (paths >= cfg.maxPaths) { incomplete.insert("path limit reached with " + std::to_string(work.size()) + " paths left"); break; }
        if (nowSec() - start > cfg.timeLimit) { incomplete.insert("time limit reached with " + std::to_string(work.size()) + " paths left"); break; }
        if ((int)viol.size() >= cfg.maxViol) { incomplete.insert("stopped after violations"); break; }
        StateP st = std::move(work.back());
        work.pop_back();
        runState(*st);
        if (cfg.verbose && paths % 500 == 0) fprintf(stderr, "[%6.1fs] paths %llu work %zu queries %llu solver %.1fs exprs %zu\n", nowSec() - start, (unsigned long long)paths, work.size(), (unsigned long long)solver.st.queries, solver.st.time, X.all.size());
    }
}

// a solver call that does not come back must not cost the results so far
static sigjmp_buf hung;
static void onAlarm(int) { signal(SIGALRM, SIG_DFL); alarm(20); siglongjmp(hung, 1); }

int main(int argc, char ** argv) {
    std::string bc, out;
    Engine g;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--unit") g.cfg.unit = next();
        else if (a == "--out") out = next();
        else if (a == "--param") { std::string p = next(); auto k = p.find('='); g.cfg.params[p.substr(0, k)] = strtoull(p.c_str() + k + 1, nullptr, 0); }
        else if (a == "--time") g.cfg.timeLimit = atof(next().c_str());
        else if (a == "--max-paths") g.cfg.maxPaths = strtoull(next().c_str(), nullptr, 0);
        else if (a == "--max-steps") g.cfg.maxSteps = strtoull(next().c_str(), nullptr, 0);
        else if (a == "--max-viol") g.cfg.maxViol = atoi(next().c_str());
        else if (a == "--threads") g.cfg.threads = true;
        else if (a == "--atomics") g.cfg.atomicsVisible = true;
        else if (a == "--preempt") g.cfg.preemptBound = atoi(next().c_str());
        else if (a == "--spurious") g.cfg.spuriousBound = atoi(next().c_str());
        else if (a == "--samples") g.cfg.samples = atoi(next().c_str());
        else if (a == "--ub-only") g.cfg.ubOnly = true;
        else if (a == "--no-race") g.cfg.race = false;
        else if (a == "--no-uninit") g.cfg.uninitCheck = false;
        else if (a == "--quick-ms") g.solver.quickMs = atoi(next().c_str());
        else if (a == "--lia-ms") g.solver.liaMs = atoi(next().c_str());
        else if (a == "--long-ms") g.solver.longMs = atoi(next().c_str());
        else if (a == "--lia-first") g.solver.liaFirst = true;
        else if (a == "--inc") g.solver.incremental = true;
        else if (a == "-v") { g.cfg.verbose++; }
        else if (a == "-vv") { g.cfg.verbose = 2; g.solver.verbose = 1; }
        else bc = a;
    }
    double t0 = nowSec();
    if (!g.load(bc)) return 2;
    if (sigsetjmp(hung, 1) == 0) {
        signal(SIGALRM, onAlarm);
        alarm((unsigned)(g.cfg.timeLimit * 1.25) + 30);
        g.run(g.cfg.unit);
    } else g.incomplete.insert("a solver call did not return in time");
    FILE * f = out.empty() ? stdout : fopen(out.c_str(), "w");
    g.output(f, nowSec() - t0);
    if (f != stdout) fclose(f);
    fflush(stdout);
    _exit(0);
}

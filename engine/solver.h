#pragma once
#include "expr.h"
#include <set>

enum Res { SAT, UNSAT, UNKNOWN };

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
    uint64_t bv = 0, lia = 0, liaUnsat = 0, liaSat = 0, bvAbs = 0;
    double time = 0, maxTime = 0;
};

struct Solver {
    SolverStats st;
    unsigned quickMs = 1500, liaMs = 15000, longMs = 30000;
    bool liaFirst = false, incremental = false;
    int verbose = 0;
    // Is the conjunction satisfiable?  `base` supplies values of symbols outside the query.
    Res check(const std::vector<E> & cs, const ModelP & base, ModelP & out, bool important = false);
    // smallest slice of pc that shares symbols (transitively) with c, plus c itself
    static std::vector<E> slice(const std::vector<E> & pc, E c);
    Solver();
    ~Solver();
private:
    struct Impl;
    Impl * p;
};
unsigned hardness(E e); // bit0: product of two non-constants, bit1: product/division by constant, bit2: other division

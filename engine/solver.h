#pragma once
#include "expr.h"
#include <z3.h>
#include <map>
#include <list>

enum SatResult { R_UNSAT, R_SAT, R_UNKNOWN };

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, trivial = 0, abstractUnsat = 0, guessed = 0;
    double seconds = 0, maxSeconds = 0;
};

class Solver {
public:
    SolverStats st;
    unsigned timeoutMs = 60000, incTimeoutMs = 1500, skipInc = 0, incFails = 0;
    std::string dumpDir;
    Solver();
    // Is  /\ cs  satisfiable?   On SAT a model of the variables in cs, merged over `base`, is returned.
    SatResult check(const std::vector<Expr *> &cs, const ModelP &base, ModelP *out);
private:
    Z3_context ctx;
    Z3_solver inc = nullptr;         // incremental solver; constraint i guarded by literal
    size_t incAsserted = 0;
    std::vector<Z3_ast> tr;          // expr id -> ast
    std::vector<Z3_ast> trAbs;
    std::vector<Z3_ast> guard;       // expr id -> guard literal
    std::vector<uint32_t> varIds;
    std::map<std::vector<uint32_t>, std::pair<SatResult, ModelP>> cache;
    std::list<ModelP> recent;
    std::vector<std::vector<u128>> recentVals;
    Z3_ast translate(Expr *e, bool abs, std::vector<Z3_ast> *lemmas);
    Z3_ast boolOf(Expr *e, bool abs, std::vector<Z3_ast> *lemmas);
    Z3_sort bv(unsigned w);
    bool hasHard(Expr *e);
    std::unordered_map<uint32_t, bool> hardMemo;
    std::unordered_map<unsigned, Z3_func_decl> fMul, fDiv, fRem;
    int absLevel = 0;
    std::vector<Expr *> absDivs;     // abstracted unsigned divisions of the current query
    void divGroups(std::vector<Z3_ast> &lemmas);
    void resetInc();
    bool guess(const std::vector<Expr *> &cs, const ModelP &base, Model &m);
    SatResult runIncremental(const std::vector<Expr *> &cs, Model &m);
    SatResult runFresh(const std::vector<Expr *> &cs, Model &m, bool abs);
    void extract(Z3_model zm, const std::vector<Expr *> &cs, Model &m);
};

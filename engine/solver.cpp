#include "solver.h"
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>

static void onErr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "hzsym: z3 error: %s\n", Z3_get_error_msg(c, e));
}

Solver::Solver() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, onErr);
    Z3_del_config(cfg);
}
Z3_sort Solver::bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }

static Z3_ast bvConst(Z3_context c, u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t) v, Z3_mk_bv_sort(c, w));
    Z3_ast hi = Z3_mk_unsigned_int64(c, (uint64_t) (v >> 64), Z3_mk_bv_sort(c, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(c, (uint64_t) v, Z3_mk_bv_sort(c, 64));
    return Z3_mk_concat(c, hi, lo);
}

static bool hardNode(Expr *e) {
    switch (e->k) {
        case K_MUL: return !e->b->isConst() && e->w >= 12;
        case K_UDIV: case K_UREM: return e->w >= 12 && !(e->b->isConst() && e->w <= 32);
        case K_SDIV: case K_SREM: return e->w >= 12;
        default: return false;
    }
}
bool Solver::hasHard(Expr *e) {
    if (e->k == K_CONST || e->k == K_VAR) return false;
    auto it = hardMemo.find(e->id);
    if (it != hardMemo.end()) return it->second;
    bool r = hardNode(e);
    for (Expr *x: {e->a, e->b, e->c}) if (!r && x) r = hasHard(x);
    hardMemo[e->id] = r;
    return r;
}

// width-1 expressions are translated to Bool, others to BitVec
Z3_ast Solver::boolOf(Expr *e, bool abs, std::vector<Z3_ast> *lemmas) { return translate(e, abs, lemmas); }

Z3_ast Solver::translate(Expr *e, bool abs, std::vector<Z3_ast> *lemmas) {
    auto &memo = abs ? trAbs : tr;
    if (memo.size() <= e->id) memo.resize(std::max<size_t>(e->id + 1, memo.size() * 2), nullptr);
    if (memo[e->id]) return memo[e->id];
    Z3_ast r = nullptr;
    auto T = [&](Expr *x) { return translate(x, abs, lemmas); };
    auto toBv = [&](Expr *x) { // bit-vector form of x, also for width 1
        Z3_ast t = T(x);
        if (x->w == 1) return Z3_mk_ite(ctx, t, bvConst(ctx, 1, 1), bvConst(ctx, 0, 1));
        return t;
    };
    auto bit = [&](Z3_ast t) { return Z3_mk_eq(ctx, t, bvConst(ctx, 1, 1)); };
    if (e->k == K_CONST) {
        r = e->w == 1 ? (e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : bvConst(ctx, e->v, e->w);
    } else if (e->k == K_VAR) {
        std::string n = "v" + std::to_string(e->p);
        Z3_symbol s = Z3_mk_string_symbol(ctx, n.c_str());
        r = Z3_mk_const(ctx, s, e->w == 1 ? Z3_mk_bool_sort(ctx) : bv(e->w));
    } else if (e->w == 1 && e->k <= K_ASHR) {
        Z3_ast a = T(e->a), b = T(e->b);
        switch (e->k) {
            case K_AND: case K_MUL: { Z3_ast x[2] = {a, b}; r = Z3_mk_and(ctx, 2, x); break; }
            case K_OR: { Z3_ast x[2] = {a, b}; r = Z3_mk_or(ctx, 2, x); break; }
            case K_XOR: case K_ADD: case K_SUB:
                if (e->b->isConst()) r = e->b->v ? Z3_mk_not(ctx, a) : a;
                else r = Z3_mk_xor(ctx, a, b);
                break;
            case K_SHL: case K_LSHR: { Z3_ast x[2] = {a, Z3_mk_not(ctx, b)}; r = Z3_mk_and(ctx, 2, x); break; }
            case K_ASHR: r = a; break;
            case K_UDIV: case K_SDIV: { Z3_ast x[2] = {a, Z3_mk_not(ctx, b)}; r = Z3_mk_or(ctx, 2, x); break; }
            case K_UREM: case K_SREM: { Z3_ast x[2] = {a, Z3_mk_not(ctx, b)}; r = Z3_mk_and(ctx, 2, x); break; }
            default: abort();
        }
    } else if (e->k >= K_EQ && e->k <= K_SLE) {
        Z3_ast a, b;
        if (e->a->w == 1 && e->k != K_EQ) { a = toBv(e->a); b = toBv(e->b); }
        else { a = T(e->a); b = T(e->b); }
        switch (e->k) {
            case K_EQ: r = Z3_mk_eq(ctx, a, b); break;
            case K_ULT: r = Z3_mk_bvult(ctx, a, b); break;
            case K_ULE: r = Z3_mk_bvule(ctx, a, b); break;
            case K_SLT: r = Z3_mk_bvslt(ctx, a, b); break;
            default: r = Z3_mk_bvsle(ctx, a, b); break;
        }
    } else switch (e->k) {
        case K_CONCAT: r = Z3_mk_concat(ctx, toBv(e->a), toBv(e->b)); break;
        case K_EXTRACT: {
            Z3_ast x = Z3_mk_extract(ctx, e->p + e->w - 1, e->p, toBv(e->a));
            r = e->w == 1 ? bit(x) : x;
            break;
        }
        case K_ZEXT: r = e->a->w == 1 ? Z3_mk_ite(ctx, T(e->a), bvConst(ctx, 1, e->w), bvConst(ctx, 0, e->w)) : Z3_mk_zero_ext(ctx, e->w - e->a->w, T(e->a)); break;
        case K_SEXT: r = e->a->w == 1 ? Z3_mk_ite(ctx, T(e->a), bvConst(ctx, maskw(e->w), e->w), bvConst(ctx, 0, e->w)) : Z3_mk_sign_ext(ctx, e->w - e->a->w, T(e->a)); break;
        case K_ITE: r = Z3_mk_ite(ctx, T(e->a), T(e->b), T(e->c)); break;
        default: {
            Z3_ast a = T(e->a), b = T(e->b);
            if (abs && hardNode(e) && (e->k == K_MUL || e->k == K_UDIV || e->k == K_UREM)) {
                auto fn = [&](std::unordered_map<unsigned, Z3_func_decl> &m, const char *n) {
                    auto it = m.find(e->w);
                    if (it != m.end()) return it->second;
                    Z3_sort d[2] = {bv(e->w), bv(e->w)};
                    std::string s = std::string(n) + std::to_string(e->w);
                    return m[e->w] = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, s.c_str()), 2, d, bv(e->w));
                };
                auto app = [&](Z3_func_decl f, Z3_ast x, Z3_ast y) { Z3_ast z[2] = {x, y}; return Z3_mk_app(ctx, f, 2, z); };
                Z3_func_decl M = fn(fMul, "M"), D = fn(fDiv, "D"), R = fn(fRem, "R");
                if (e->k == K_MUL) {
                    r = app(M, a, b);
                    Z3_ast r2 = app(M, b, a);
                    lemmas->push_back(Z3_mk_eq(ctx, r, r2));
                    Z3_ast one = bvConst(ctx, 1, e->w), zero = bvConst(ctx, 0, e->w);
                    lemmas->push_back(Z3_mk_implies(ctx, Z3_mk_eq(ctx, a, one), Z3_mk_eq(ctx, r, b)));
                    lemmas->push_back(Z3_mk_implies(ctx, Z3_mk_eq(ctx, b, one), Z3_mk_eq(ctx, r, a)));
                    lemmas->push_back(Z3_mk_implies(ctx, Z3_mk_eq(ctx, a, zero), Z3_mk_eq(ctx, r, zero)));
                    lemmas->push_back(Z3_mk_implies(ctx, Z3_mk_eq(ctx, b, zero), Z3_mk_eq(ctx, r, zero)));
                } else {
                    Z3_ast q = app(D, a, b), rem = app(R, a, b), pr = app(M, q, b), pr2 = app(M, b, q);
                    Z3_ast zero = bvConst(ctx, 0, e->w);
                    Z3_ast nz = Z3_mk_not(ctx, Z3_mk_eq(ctx, b, zero));
                    lemmas->push_back(Z3_mk_eq(ctx, pr, pr2));
                    lemmas->push_back(Z3_mk_eq(ctx, Z3_mk_bvadd(ctx, pr, rem), a));
                    lemmas->push_back(Z3_mk_implies(ctx, nz, Z3_mk_bvult(ctx, rem, b)));
                    lemmas->push_back(Z3_mk_implies(ctx, nz, Z3_mk_bvule(ctx, q, a)));
                    lemmas->push_back(Z3_mk_bvule(ctx, rem, a));
                    lemmas->push_back(Z3_mk_implies(ctx, nz, Z3_mk_bvule(ctx, pr, a)));
                    // sound consequences of the operands' known ranges
                    if (e->b->lo > 1) {
                        unsigned s = 0;
                        while (s + 1 < e->w && (((u128) 1 << (s + 1)) <= e->b->lo)) s++;
                        lemmas->push_back(Z3_mk_bvule(ctx, q, Z3_mk_bvlshr(ctx, a, bvConst(ctx, s, e->w))));
                    }
                    if (absLevel) for (unsigned s = 1; s < e->w && s <= 40; s++) // b >= 2^s -> q <= a >> s
                        lemmas->push_back(Z3_mk_implies(ctx, Z3_mk_bvuge(ctx, b, bvConst(ctx, (u128) 1 << s, e->w)),
                                                        Z3_mk_bvule(ctx, q, Z3_mk_bvlshr(ctx, a, bvConst(ctx, s, e->w)))));
                    if (absLevel) for (unsigned s = 1; s < e->w; s++) // b < 2^(w-s): a < b << s  <->  q < 2^s
                        lemmas->push_back(Z3_mk_implies(ctx, Z3_mk_bvult(ctx, b, bvConst(ctx, (u128) 1 << (e->w - s), e->w)),
                                                        Z3_mk_iff(ctx, Z3_mk_bvult(ctx, a, Z3_mk_bvshl(ctx, b, bvConst(ctx, s, e->w))), Z3_mk_bvult(ctx, q, bvConst(ctx, (u128) 1 << s, e->w)))));
                    if (e->k == K_UDIV) absDivs.push_back(e);
                    r = e->k == K_UDIV ? q : rem;
                }
                break;
            }
            switch (e->k) {
                case K_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
                case K_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
                case K_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
                case K_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
                case K_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
                case K_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
                case K_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
                case K_AND: r = Z3_mk_bvand(ctx, a, b); break;
                case K_OR: r = Z3_mk_bvor(ctx, a, b); break;
                case K_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
                case K_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
                case K_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
                case K_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
                default: abort();
            }
        }
    }
    if (memo.size() <= e->id) memo.resize(e->id + 1, nullptr);
    return memo[e->id] = r;
}

void Solver::resetInc() {
    if (inc) Z3_solver_dec_ref(ctx, inc);
    inc = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, inc);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(timeoutMs, incTimeoutMs));
    Z3_solver_set_params(ctx, inc, p);
    Z3_params_dec_ref(ctx, p);
    guard.clear();
    incAsserted = 0;
}

void Solver::extract(Z3_model zm, const std::vector<Expr *> &cs, Model &m) {
    Z3_model_inc_ref(ctx, zm);
    std::vector<uint32_t> done;
    std::vector<Expr *> st;
    std::unordered_map<uint32_t, char> seen;
    for (Expr *c: cs) st.push_back(c);
    while (!st.empty()) {
        Expr *e = st.back();
        st.pop_back();
        if (e->k == K_CONST || seen.count(e->id)) continue;
        seen[e->id] = 1;
        if (e->k == K_VAR) {
            Z3_ast v = nullptr;
            u128 r = 0;
            if (Z3_model_eval(ctx, zm, translate(e, false, nullptr), true, &v)) {
                if (e->w == 1) r = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
                else {
                    const char *s = Z3_get_numeral_string(ctx, v);
                    for (; *s; s++) r = r * 10 + (*s - '0');
                }
            }
            if (m.val.size() <= e->p) m.val.resize(e->p + 1, 0);
            m.val[e->p] = r;
            continue;
        }
        for (Expr *x: {e->a, e->b, e->c}) if (x) st.push_back(x);
    }
    Z3_model_dec_ref(ctx, zm);
}

SatResult Solver::runIncremental(const std::vector<Expr *> &cs, Model &m) {
    if (!inc || incAsserted > 1000) resetInc();
    std::vector<Z3_ast> as;
    for (Expr *c: cs) {
        if (guard.size() <= c->id) guard.resize(std::max<size_t>(c->id + 1, guard.size() * 2), nullptr);
        if (!guard[c->id]) {
            std::string n = "g" + std::to_string(c->id);
            Z3_ast g = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx));
            Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, g, translate(c, false, nullptr)));
            incAsserted++;
            guard[c->id] = g;
        }
        as.push_back(guard[c->id]);
    }
    Z3_lbool r = Z3_solver_check_assumptions(ctx, inc, as.size(), as.data());
    if (r == Z3_L_TRUE) {
        extract(Z3_solver_get_model(ctx, inc), cs, m);
        return R_SAT;
    }
    if (r == Z3_L_UNDEF) resetInc();
    return r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
}

static void factors(Expr *e, std::vector<u128> &f, int depth) {
    if (e->k == K_CONST) f.push_back(e->v);
    else if (depth && (e->k == K_ADD || e->k == K_SUB)) { factors(e->a, f, depth - 1); factors(e->b, f, depth - 1); }
    else if (e->k == K_MUL && e->b->isConst()) f.push_back(e->b->v);
    else if (e->k == K_SHL && e->b->isConst() && e->b->v < e->w) f.push_back((u128) 1 << (unsigned) e->b->v);
}
// Integer lemma for k divisions by the same S: if the dividends add up to c * S without overflow,
// then the quotients add up to more than c - k and at most c.
void Solver::divGroups(std::vector<Z3_ast> &lemmas) {
    std::map<uint32_t, std::vector<Expr *>> g;
    for (Expr *e: absDivs) {
        auto &v = g[e->b->id];
        if (std::find(v.begin(), v.end(), e) == v.end()) v.push_back(e);
    }
    for (auto &x: g) {
        auto &v = x.second;
        unsigned k = v.size(), w = v[0]->w;
        if (k > 64 || w > 64) continue;
        std::vector<u128> cs;
        for (Expr *e: v) factors(e->a, cs, 12);
        std::sort(cs.begin(), cs.end());
        cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
        Z3_ast S = translate(v[0]->b, true, &lemmas), A = nullptr, Q = nullptr;
        std::vector<Z3_ast> pre;
        u128 M = maskw(w), lim = M / k;
        for (Expr *e: v) {
            Z3_ast a = translate(e->a, true, &lemmas), q = translate(e, true, &lemmas);
            A = A ? Z3_mk_bvadd(ctx, A, a) : a;
            Q = Q ? Z3_mk_bvadd(ctx, Q, q) : q;
            pre.push_back(Z3_mk_bvule(ctx, a, bvConst(ctx, lim, w)));
        }
        pre.push_back(Z3_mk_not(ctx, Z3_mk_eq(ctx, S, bvConst(ctx, 0, w))));
        unsigned used = 0;
        for (u128 c: cs) {
            if (c < 2 || c > (M >> 1) || ++used > 8) continue;
            auto p = pre;
            p.push_back(Z3_mk_bvule(ctx, S, bvConst(ctx, M / c, w)));
            p.push_back(Z3_mk_eq(ctx, A, Z3_mk_bvmul(ctx, S, bvConst(ctx, c, w))));
            std::vector<Z3_ast> one;
            for (unsigned j = 0; j < k && j <= c; j++) one.push_back(Z3_mk_eq(ctx, Q, bvConst(ctx, c - j, w)));
            Z3_ast post[3] = {Z3_mk_or(ctx, one.size(), one.data()), Z3_mk_bvule(ctx, Q, bvConst(ctx, c, w)), Z3_mk_bvult(ctx, bvConst(ctx, c, w), Z3_mk_bvadd(ctx, Q, bvConst(ctx, k, w)))};
            lemmas.push_back(Z3_mk_implies(ctx, Z3_mk_and(ctx, p.size(), p.data()), Z3_mk_and(ctx, 3, post)));
            // and when they add up to c exactly, every remainder is zero
            p.push_back(Z3_mk_eq(ctx, Q, bvConst(ctx, c, w)));
            std::vector<Z3_ast> z;
            for (Expr *e: v) z.push_back(Z3_mk_implies(ctx, Z3_mk_eq(ctx, translate(e, true, &lemmas), bvConst(ctx, 0, w)), Z3_mk_eq(ctx, translate(e->a, true, &lemmas), bvConst(ctx, 0, w))));
            lemmas.push_back(Z3_mk_implies(ctx, Z3_mk_and(ctx, p.size(), p.data()), Z3_mk_and(ctx, z.size(), z.data())));
        }
    }
}

SatResult Solver::runFresh(const std::vector<Expr *> &cs, Model &m, bool abs) {
    Z3_solver s = abs ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_UFBV")) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), abs ? std::min(timeoutMs, absLevel ? 30000u : 40000u) : timeoutMs);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    std::vector<Z3_ast> lem;
    if (abs) { trAbs.clear(); absDivs.clear(); }
    for (Expr *c: cs) Z3_solver_assert(ctx, s, translate(c, abs, &lem));
    if (abs) divGroups(lem);
    for (auto l: lem) Z3_solver_assert(ctx, s, l);
    Z3_lbool r = Z3_solver_check(ctx, s);
    SatResult res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    if (res == R_SAT) extract(Z3_solver_get_model(ctx, s), cs, m);
    if (!dumpDir.empty() && (!abs || res == R_UNKNOWN)) {
        static int n = 0;
        FILE *f = fopen((dumpDir + (abs ? "/a" : "/q") + std::to_string(n++) + ".smt2").c_str(), "w");
        if (f) { fprintf(f, "(set-logic %s)\n%s(check-sat)\n", abs ? "QF_UFBV" : "QF_BV", Z3_solver_to_string(ctx, s)); fclose(f); }
    }
    Z3_solver_dec_ref(ctx, s);
    return res;
}

static void collect(Expr *e, std::map<uint32_t, unsigned> &vars) {
    std::vector<Expr *> st{e};
    std::unordered_map<uint32_t, char> seen;
    while (!st.empty()) {
        Expr *x = st.back(); st.pop_back();
        if (x->k == K_CONST || seen.count(x->id)) continue;
        seen[x->id] = 1;
        if (x->k == K_VAR) { vars[x->p] = x->w; continue; }
        for (Expr *y: {x->a, x->b, x->c}) if (y) st.push_back(y);
    }
}
static bool satisfies(const std::vector<Expr *> &cs, const Model &m) {
    for (Expr *c: cs) if (!evalExpr(c, m)) return false;
    return true;
}

// Candidate models for constraints with hard arithmetic: corner values and pseudo-random ones; a hit is verified by evaluation.
bool Solver::guess(const std::vector<Expr *> &cs, const ModelP &base, Model &m) {
    std::map<uint32_t, unsigned> vars;
    for (Expr *c: cs) collect(c, vars);
    if (vars.size() > 12) return false;
    uint64_t rnd = 0x9e3779b97f4a7c15ull;
    auto next = [&] { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; };
    for (unsigned t = 0; t < 400; t++) {
        Model c;
        for (auto &v: vars) {
            u128 x;
            unsigned w = v.second;
            switch (t < 4 ? t : next() % 6) {
                case 0: x = 0; break;
                case 1: x = 1; break;
                case 2: x = maskw(w); break;
                case 3: x = base ? base->get(v.first) : 2; break;
                case 4: x = ((u128) 1 << (next() % w)) - (next() & 1); break;
                default: x = (u128) next() >> (next() % 64); break;
            }
            if (c.val.size() <= v.first) c.val.resize(v.first + 1, 0);
            c.val[v.first] = x & maskw(w);
        }
        if (satisfies(cs, c)) { m.val = c.val; return true; }
    }
    return false;
}

SatResult Solver::check(const std::vector<Expr *> &cs0, const ModelP &base, ModelP *out) {
    std::vector<Expr *> cs;
    for (Expr *c: cs0) {
        if (c->isConst()) { if (!c->v) { st.trivial++; return R_UNSAT; } continue; }
        cs.push_back(c);
    }
    if (cs.empty()) { st.trivial++; if (out) *out = base; return R_SAT; }
    std::sort(cs.begin(), cs.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<uint32_t> key;
    for (Expr *c: cs) key.push_back(c->id);
    auto merge = [&](const Model &nm) {
        if (!out) return;
        auto m = std::make_shared<Model>();
        if (base) m->val = base->val;
        for (Expr *c: cs) for (uint32_t v: exprVars(c)) {
            if (m->val.size() <= v) m->val.resize(v + 1, 0);
            m->val[v] = nm.get(v);
        }
        *out = m;
    };
    auto it = cache.find(key);
    if (it != cache.end() && it->second.first != R_UNKNOWN) {
        st.cacheHits++;
        if (it->second.first == R_SAT) merge(*it->second.second);
        return it->second.first;
    }
    for (auto i = recent.begin(); i != recent.end(); ++i) {
        if (satisfies(cs, **i)) {
            st.modelHits++;
            ModelP m = *i;
            merge(*m);
            recent.splice(recent.begin(), recent, i);
            return R_SAT;
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    st.queries++;
    auto m = std::make_shared<Model>();
    SatResult r = R_UNKNOWN;
    bool hard = false;
    for (Expr *c: cs) if (hasHard(c)) { hard = true; break; }
    if (hard && guess(cs, base, *m)) { r = R_SAT; st.guessed++; }
    else if (hard) {
        Model am;
        for (absLevel = 0; absLevel < 2; absLevel++) { // few lemmas first, all of them when those do not settle it
            am.val.clear();
            r = runFresh(cs, am, true);
            if (r == R_UNSAT || (r == R_SAT && satisfies(cs, am))) break;
            am.memo.clear();
        }
        if (r == R_UNSAT) st.abstractUnsat++;
        else {
            bool ok = false;
            if (r == R_SAT && satisfies(cs, am)) { m->val = am.val; ok = true; }
            if (!ok) {
                Model em;
                r = runFresh(cs, em, false);
                m->val = em.val;
            }
        }
    } else {
        if (skipInc) skipInc--;
        else {
            r = runIncremental(cs, *m);
            if (r != R_UNKNOWN) incFails = 0;
            else if (++incFails >= 3) { skipInc = 24; incFails = 2; }
        }
        if (r == R_UNKNOWN) { m->val.clear(); r = runFresh(cs, *m, false); }
    }
    if (r == R_SAT) {
        m->memo.clear();
        if (!satisfies(cs, *m)) {
            fprintf(stderr, "hzsym: internal error: solver model does not satisfy the constraints\n");
            r = R_UNKNOWN;
        }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.seconds += dt;
    st.maxSeconds = std::max(st.maxSeconds, dt);
    if (r == R_SAT) {
        st.sat++;
        recent.push_front(m);
        if (recent.size() > 12) recent.pop_back();
        merge(*m);
    } else if (r == R_UNSAT) st.unsat++;
    else st.unknown++;
    if (cache.size() > 200000) cache.clear();
    cache[key] = {r, m};
    return r;
}

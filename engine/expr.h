// Hash-consed bit-vector expressions with a simplifier.  Width 1..128; booleans have width 1.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <unordered_map>
#include <memory>
#include <string>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
    K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
    K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE
};

typedef std::vector<uint32_t> VarSet;

struct Expr {
    Kind k;
    uint16_t w;
    uint32_t p;      // extract: low bit; var: index
    uint32_t id;
    uint32_t size;   // saturating dag-as-tree size
    Expr *a, *b, *c;
    u128 v;          // constant value
    u128 kz, ko;     // known-zero / known-one bits
    u128 lo, hi;     // unsigned range
    const VarSet *vars;
    bool isConst() const { return k == K_CONST; }
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
inline i128 sext128(u128 v, unsigned w) {
    if (w >= 128) return (i128) v;
    u128 s = (u128) 1 << (w - 1);
    return (i128) ((v ^ s) - s);
}

struct Model {
    std::vector<u128> val;                       // by var index (absent = 0)
    mutable std::unordered_map<uint32_t, u128> memo;
    u128 get(uint32_t i) const { return i < val.size() ? val[i] : 0; }
};
typedef std::shared_ptr<const Model> ModelP;

extern bool exprPlain;
Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(unsigned w, uint32_t idx);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkIte(Expr *c, Expr *t, Expr *f);
inline Expr *mkNot(Expr *a) { return mkBin(K_XOR, a, mkConst(maskw(a->w), a->w)); }
inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(K_EQ, a, b); }
inline Expr *mkAnd(Expr *a, Expr *b) { return mkBin(K_AND, a, b); }
inline Expr *mkOr(Expr *a, Expr *b) { return mkBin(K_OR, a, b); }
inline Expr *mkTrue() { return mkConst(1, 1); }
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
u128 evalExpr(Expr *e, const Model &m);
const VarSet &exprVars(Expr *e);
size_t exprCount();
std::string exprStr(Expr *e, int depth = 6);

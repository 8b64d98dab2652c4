#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <deque>
#include <unordered_set>
bool exprPlain = false;   // leave sums as they are, so that the solver decides arithmetic identities

namespace {
struct Key { Kind k; uint16_t w; uint32_t p; Expr *a, *b, *c; u128 v; };
struct H {
    size_t operator()(const Expr *e) const {
        uint64_t h = e->k * 0x9E3779B97F4A7C15ull + e->w;
        auto mix = [&](uint64_t x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(e->p); mix((uint64_t) e->a); mix((uint64_t) e->b); mix((uint64_t) e->c);
        mix((uint64_t) e->v); mix((uint64_t) (e->v >> 64));
        return h;
    }
};
struct E {
    bool operator()(const Expr *x, const Expr *y) const {
        return x->k == y->k && x->w == y->w && x->p == y->p && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v;
    }
};
std::unordered_set<Expr *, H, E> table;
std::deque<Expr> arena;

u128 topmask(u128 x) { // smallest 2^k-1 >= x
    if (!x) return 0;
    int n = (x >> 64) ? 128 - __builtin_clzll((uint64_t) (x >> 64)) : 64 - __builtin_clzll((uint64_t) x);
    return maskw(n);
}

void analyse(Expr *e) {
    unsigned w = e->w;
    u128 M = maskw(w);
    e->kz = ~M; e->ko = 0; e->lo = 0; e->hi = M;
    Expr *a = e->a, *b = e->b, *c = e->c;
    switch (e->k) {
        case K_CONST: e->kz = ~e->v; e->ko = e->v; e->lo = e->hi = e->v; return;
        case K_AND: e->kz = (a->kz | b->kz); e->ko = a->ko & b->ko; e->hi = std::min(a->hi, b->hi); break;
        case K_OR: e->kz = (a->kz & b->kz); e->ko = a->ko | b->ko; e->lo = std::max(a->lo, b->lo); break;
        case K_XOR: e->kz = (a->kz & b->kz) | (a->ko & b->ko) | ~M; e->ko = ((a->kz & b->ko) | (a->ko & b->kz)) & M; break;
        case K_ZEXT: e->kz = a->kz; e->ko = a->ko; e->lo = a->lo; e->hi = a->hi; break;
        case K_EXTRACT: {
            e->kz = (a->kz >> e->p) | ~M; e->ko = (a->ko >> e->p) & M;
            if (e->p == 0 && a->hi <= M) { e->lo = a->lo; e->hi = a->hi; }
            else if ((a->hi >> e->p) <= M) { e->lo = a->lo >> e->p; e->hi = a->hi >> e->p; }
            break;
        }
        case K_CONCAT: e->kz = ((a->kz << b->w) | (b->kz & maskw(b->w))) | ~M; e->ko = (a->ko << b->w) | b->ko;
            e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
        case K_ITE: e->kz = b->kz & c->kz; e->ko = b->ko & c->ko; e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi);
            // (y == 0 ? t : y) and (y != 0 ? y : t) are never below 1 when t is not
            if (a->k == K_EQ && a->b->isConst() && !a->b->v && a->a == c) e->lo = std::max(e->lo, std::min<u128>(b->lo, std::max<u128>(c->lo, 1)));
            break;
        case K_SHL:
            if (b->isConst() && b->v < w) {
                unsigned s = (unsigned) b->v;
                e->kz = ((a->kz << s) | maskw(s)) | ~M; e->ko = (a->ko << s) & M;
                if (s == 0 || (a->hi >> (w - s)) == 0) { e->lo = a->lo << s; e->hi = a->hi << s; }
            } else if (b->hi < w) {
                unsigned s = (unsigned) b->hi;
                if (s == 0 || (a->hi >> (w - s)) == 0) { e->hi = a->hi << s; e->lo = a->lo; }
            }
            break;
        case K_LSHR:
            if (b->isConst() && b->v < w) {
                unsigned s = (unsigned) b->v;
                e->kz = ((a->kz & M) >> s) | ~(M >> s); e->ko = a->ko >> s;
                e->lo = a->lo >> s; e->hi = a->hi >> s;
            } else e->hi = a->hi;
            break;
        case K_ADD: {
            u128 h = a->hi + b->hi;
            if (h >= a->hi && h <= M) { e->lo = a->lo + b->lo; e->hi = h; }
            // low common zero bits
            u128 low = (~(~a->kz | ~b->kz));
            u128 tz = low & ~(low + 1);
            e->kz |= tz & M;
            break;
        }
        case K_SUB: {
            if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
            u128 low = (~(~a->kz | ~b->kz));
            u128 tz = low & ~(low + 1);
            e->kz |= tz & M;
            break;
        }
        case K_MUL: {
            if (w <= 64) {
                u128 h = a->hi * b->hi;
                if (h <= M) { e->lo = a->lo * b->lo; e->hi = h; }
            } else if (a->hi <= maskw(64) && b->hi <= maskw(64)) {
                u128 h = a->hi * b->hi;
                if (h <= M) { e->lo = a->lo * b->lo; e->hi = h; }
            }
            // trailing zeros add up
            auto tz = [](u128 kz) { unsigned n = 0; while (n < 128 && ((kz >> n) & 1)) n++; return n; };
            unsigned n = std::min<unsigned>(w, tz(a->kz) + tz(b->kz));
            e->kz |= maskw(n);
            break;
        }
        case K_UDIV:
            if (b->lo > 0) { e->hi = a->hi / b->lo; e->lo = a->lo / b->hi; }
            break;
        case K_UREM:
            e->hi = a->hi;
            if (b->lo > 0) e->hi = std::min(a->hi, b->hi - 1);
            break;
        case K_SEXT:
            if ((a->kz >> (a->w - 1)) & 1) { e->kz = a->kz; e->ko = a->ko; e->lo = a->lo; e->hi = a->hi; }
            break;
        default: break;
    }
    // combine ranges and bits
    if (e->hi > (M & ~e->kz)) e->hi = M & ~e->kz;
    if (e->lo < e->ko) e->lo = e->ko;
    e->kz |= ~topmask(e->hi);
}

Expr *intern(Kind k, unsigned w, uint32_t p, Expr *a, Expr *b, Expr *c, u128 v) {
    Expr tmp;
    tmp.k = k; tmp.w = w; tmp.p = p; tmp.a = a; tmp.b = b; tmp.c = c; tmp.v = v; tmp.vars = nullptr;
    auto it = table.find(&tmp);
    if (it != table.end()) return *it;
    tmp.id = arena.size();
    uint64_t s = 1;
    if (a) s += a->size;
    if (b) s += b->size;
    if (c) s += c->size;
    tmp.size = s > 0x7fffffff ? 0x7fffffff : s;
    analyse(&tmp);
    arena.push_back(tmp);
    Expr *e = &arena.back();
    table.insert(e);
    // a node whose value is fully determined is the constant
    if (k != K_CONST && ((e->kz | e->ko) & maskw(w)) == maskw(w)) return mkConst(e->ko & maskw(w), w);
    if (k != K_CONST && e->lo == e->hi) return mkConst(e->lo, w);
    return e;
}
bool commutative(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }

bool linear(Expr *e, u128 coef, std::vector<std::pair<Expr *, u128>> &t, u128 &cst, int &budget) {
    if (--budget < 0) return false;
    if (e->k == K_CONST) { cst += coef * e->v; return true; }
    if (e->k == K_ADD) return linear(e->a, coef, t, cst, budget) && linear(e->b, coef, t, cst, budget);
    if (e->k == K_SUB) return linear(e->a, coef, t, cst, budget) && linear(e->b, -coef, t, cst, budget);
    if (e->k == K_MUL && e->b->isConst()) return linear(e->a, coef * e->b->v, t, cst, budget);
    if (e->k == K_SHL && e->b->isConst() && e->b->v < e->w) return linear(e->a, coef << (unsigned) e->b->v, t, cst, budget);
    for (auto &x: t) if (x.first == e) { x.second += coef; return true; }
    t.push_back({e, coef});
    return true;
}
// if a +/- b cancels some term, return the rebuilt sum
Expr *cancel(Kind k, Expr *a, Expr *b) {
    if (exprPlain) return nullptr;
    unsigned w = a->w;
    std::vector<std::pair<Expr *, u128>> t, ta;
    u128 cst = 0, c0 = 0;
    int budget = 24;
    if (!linear(a, 1, ta, c0, budget)) return nullptr;
    t = ta; cst = c0;
    std::vector<std::pair<Expr *, u128>> tb;
    u128 cb = 0;
    int budget2 = 24;
    if (!linear(b, 1, tb, cb, budget2)) return nullptr;
    budget = 48;
    if (!linear(b, k == K_ADD ? (u128) 1 : (u128) -1, t, cst, budget)) return nullptr;
    u128 M = maskw(w);
    size_t live = 0;
    for (auto &x: t) if (x.second & M) live++;
    // q*y + (x % y) with q = x / y  ->  x
    bool changed = false;
    for (auto &r: t) {
        if (r.first->k != K_UREM || !(r.second & M)) continue;
        for (auto &m: t) {
            if (m.first->k != K_MUL || ((m.second ^ r.second) & M)) continue;
            Expr *x = r.first->a, *y = r.first->b;
            Expr *q1 = m.first->a, *q2 = m.first->b;
            if ((q1->k == K_UDIV && q1->a == x && q1->b == y && q2 == y) || (q2->k == K_UDIV && q2->a == x && q2->b == y && q1 == y)) {
                u128 co = r.second;
                r.second = 0; m.second = 0;
                bool f = false;
                for (auto &z: t) if (z.first == x) { z.second += co; f = true; break; }
                if (!f) { t.push_back({x, co}); }
                changed = true;
                break;
            }
        }
        if (changed) break;
    }
    size_t nl = 0;
    for (auto &x: t) if (x.second & M) nl++;
    if (!changed && live == ta.size() + tb.size() && !((c0 & M) && (cb & M))) return nullptr;
    if (!changed && live == ta.size() + tb.size() && nl > 6) return nullptr;
    // rebuild
    Expr *pos = nullptr, *neg = nullptr;
    std::sort(t.begin(), t.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
    auto acc = [&](Expr *&s, Expr *e) { s = s ? intern(K_ADD, w, 0, s, e, nullptr, 0) : e; };
    for (auto &x: t) {
        u128 c = x.second & M;
        if (!c) continue;
        if (c == 1) acc(pos, x.first);
        else if (c == M) acc(neg, x.first);
        else if (w > 1 && (c >> (w - 1))) acc(neg, mkBin(K_MUL, x.first, mkConst((-c) & M, w)));
        else acc(pos, mkBin(K_MUL, x.first, mkConst(c, w)));
    }
    cst &= M;
    if (!pos) { pos = mkConst(cst, w); cst = 0; }
    else if (cst) pos = intern(K_ADD, w, 0, pos, mkConst(cst, w), nullptr, 0);
    if (neg) pos = intern(K_SUB, w, 0, pos, neg, nullptr, 0);
    return pos;
}
}

size_t exprCount() { return arena.size(); }

Expr *mkConst(u128 v, unsigned w) { return intern(K_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
Expr *mkVar(unsigned w, uint32_t idx) { return intern(K_VAR, w, idx, nullptr, nullptr, nullptr, 0); }

u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
    u128 M = maskw(w);
    switch (k) {
        case K_ADD: return (a + b) & M;
        case K_SUB: return (a - b) & M;
        case K_MUL: return (a * b) & M;
        case K_UDIV: return b ? a / b : M;
        case K_UREM: return b ? a % b : a;
        case K_SDIV: {
            i128 x = sext128(a, w), y = sext128(b, w);
            if (!y) return x < 0 ? 1 : M;
            bool n = (x < 0) != (y < 0);
            u128 ux = x < 0 ? -(u128) x : x, uy = y < 0 ? -(u128) y : y, q = ux / uy;
            return (n ? -q : q) & M;
        }
        case K_SREM: {
            i128 x = sext128(a, w), y = sext128(b, w);
            if (!y) return a;
            u128 ux = x < 0 ? -(u128) x : x, uy = y < 0 ? -(u128) y : y, r = ux % uy;
            return (x < 0 ? -r : r) & M;
        }
        case K_AND: return a & b;
        case K_OR: return a | b;
        case K_XOR: return a ^ b;
        case K_SHL: return b >= w ? 0 : (a << (unsigned) b) & M;
        case K_LSHR: return b >= w ? 0 : a >> (unsigned) b;
        case K_ASHR: {
            i128 x = sext128(a, w);
            unsigned s = b >= w ? w - 1 : (unsigned) b;
            return (u128) (x >> s) & M;
        }
        case K_EQ: return a == b;
        case K_ULT: return a < b;
        case K_ULE: return a <= b;
        case K_SLT: return sext128(a, w) < sext128(b, w);
        case K_SLE: return sext128(a, w) <= sext128(b, w);
        default: abort();
    }
}

Expr *mkBin(Kind k, Expr *a, Expr *b) {
    unsigned w = a->w;
    bool cmp = k >= K_EQ && k <= K_SLE;
    unsigned rw = cmp ? 1 : w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d kind %d\n", a->w, b->w, k); abort(); }
    if (a->isConst() && b->isConst()) return mkConst(foldBin(k, a->v, b->v, w), rw);
    u128 M = maskw(w);
    if (commutative(k)) {
        if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    }
    // push operations through ite with constant arms
    if (b->isConst() && a->k == K_ITE && (a->b->isConst() || a->c->isConst()) && a->size < 4000) {
        if (a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        if (cmp) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    }
    if (a->isConst() && b->k == K_ITE && (b->b->isConst() || b->c->isConst()) && b->size < 4000) {
        if (b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
        if (cmp) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    }
    switch (k) {
        case K_ADD:
            if (b->isConst() && b->v == 0) return a;
            if (w == 1) return mkBin(K_XOR, a, b);
            if (b->isConst() && a->k == K_CONCAT && a->a->isConst() && (b->v & maskw(a->b->w)) == 0)
                return mkConcat(mkConst(a->a->v + (b->v >> a->b->w), a->a->w), a->b);
            if (b->isConst() && a->k == K_ZEXT && (b->v & maskw(a->a->w)) == 0)
                return mkConcat(mkConst(b->v >> a->a->w, w - a->a->w), a->a);
            if (Expr *r = cancel(k, a, b)) return r;
            // disjoint bits: or  (helps recombination of bytes)
            if (((~a->kz & ~b->kz) & M) == 0) return mkBin(K_OR, a, b);
            break;
        case K_SUB:
            if (a == b) return mkConst(0, w);
            if (b->isConst()) return mkBin(K_ADD, a, mkConst(-b->v, w));
            if (w == 1) return mkBin(K_XOR, a, b);
            if (Expr *r = cancel(k, a, b)) return r;
            break;
        case K_MUL:
            if (b->isConst()) {
                if (b->v == 0) return b;
                if (b->v == 1) return a;
                if ((b->v & (b->v - 1)) == 0) {
                    unsigned s = 0;
                    while (!((b->v >> s) & 1)) s++;
                    return mkBin(K_SHL, a, mkConst(s, w));
                }
                if (a->k == K_MUL && a->b->isConst()) return mkBin(K_MUL, a->a, mkConst(a->b->v * b->v, w));
            }
            if (w == 1) return mkBin(K_AND, a, b);
            break;
        case K_UDIV:
            if (b->isConst() && b->v == 1) return a;
            if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0) {
                unsigned s = 0;
                while (!((b->v >> s) & 1)) s++;
                return mkBin(K_LSHR, a, mkConst(s, w));
            }
            if (b->lo > 0 && a->hi < b->lo) return mkConst(0, w);
            break;
        case K_UREM:
            if (b->isConst() && b->v == 1) return mkConst(0, w);
            if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K_AND, a, mkConst(b->v - 1, w));
            if (b->lo > 0 && a->hi < b->lo) return a;
            break;
        case K_SDIV:
            if (w > 1 && ((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)) return mkBin(K_UDIV, a, b);
            break;
        case K_SREM:
            if (w > 1 && ((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)) return mkBin(K_UREM, a, b);
            break;
        case K_AND:
            if (a == b) return a;
            if (b->isConst()) {
                if (b->v == 0) return b;
                if (b->v == M) return a;
                if (((~a->kz & M) & ~b->v) == 0) return a; // masked bits already zero
                if (a->k == K_AND && a->b->isConst()) return mkBin(K_AND, a->a, mkConst(a->b->v & b->v, w));
                // low mask -> zext(extract)
                u128 v = b->v;
                if ((v & (v + 1)) == 0) {
                    unsigned n = 0;
                    while ((v >> n) & 1) n++;
                    return mkZExt(mkExtract(a, 0, n), w);
                }
                if (a->k == K_ZEXT && w > a->a->w) {
                    return mkZExt(mkBin(K_AND, a->a, mkConst(v, a->a->w)), w);
                }
            }
            if (w == 1) {
                if (a->k == K_XOR && a->b->isConst() && a->a == b) return mkConst(0, 1);
                if (b->k == K_XOR && b->b->isConst() && b->a == a) return mkConst(0, 1);
                if (b->k == K_AND && (b->a == a || b->b == a)) return b;
                if (a->k == K_AND && (a->a == b || a->b == b)) return a;
            }
            break;
        case K_OR: {
            if (a == b) return a;
            if (b->isConst()) {
                if (b->v == 0) return a;
                if (b->v == M) return b;
            }
            if (w == 1) {
                if (a->k == K_XOR && a->b->isConst() && a->a == b) return mkConst(1, 1);
                if (b->k == K_XOR && b->b->isConst() && b->a == a) return mkConst(1, 1);
                if (b->k == K_OR && (b->a == a || b->b == a)) return b;
                if (a->k == K_OR && (a->a == b || a->b == b)) return a;
                break;
            }
            // split at a boundary: hi part from one operand, lo part from the other -> concat
            auto nz = [&](Expr *e) { return ~e->kz & M; };
            for (int r = 0; r < 2; r++) {
                Expr *x = r ? b : a, *y = r ? a : b; // x low, y high
                u128 nx = nz(x), ny = nz(y);
                if (nx == 0 || ny == 0 || (nx & ny)) continue;
                u128 tx = topmask(nx);
                if (tx & ny) continue;
                unsigned cut = 0;
                while ((tx >> cut) & 1) cut++;
                unsigned lowy = 0;
                while (!((ny >> lowy) & 1)) lowy++;
                // choose byte-ish boundary
                unsigned n = cut;
                (void) lowy;
                if (n > 0 && n < w) return mkConcat(mkExtract(y, n, w - n), mkExtract(x, 0, n));
            }
            break;
        }
        case K_XOR:
            if (a == b) return mkConst(0, w);
            if (b->isConst()) {
                if (b->v == 0) return a;
                if (a->k == K_XOR && a->b->isConst()) return mkBin(K_XOR, a->a, mkConst(a->b->v ^ b->v, w));
                if (w == 1) { // negate comparisons
                    if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
                    if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
                    if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
                    if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
                }
            }
            if (a->k == K_XOR && (a->a == b)) return a->b;
            if (a->k == K_XOR && (a->b == b)) return a->a;
            if (b->k == K_XOR && (b->a == a)) return b->b;
            if (b->k == K_XOR && (b->b == a)) return b->a;
            break;
        case K_SHL:
            if (b->isConst()) {
                if (b->v == 0) return a;
                if (b->v >= w) return mkConst(0, w);
                unsigned s = (unsigned) b->v;
                return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
            }
            break;
        case K_LSHR:
            if (b->isConst()) {
                if (b->v == 0) return a;
                if (b->v >= w) return mkConst(0, w);
                unsigned s = (unsigned) b->v;
                return mkZExt(mkExtract(a, s, w - s), w);
            }
            break;
        case K_ASHR:
            if (b->isConst()) {
                if (b->v == 0) return a;
                unsigned s = b->v >= w ? w - 1 : (unsigned) b->v;
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            if ((a->kz >> (w - 1)) & 1) return mkBin(K_LSHR, a, b);
            break;
        case K_EQ:
            if (a == b) return mkTrue();
            if (w == 1) {
                if (b->isConst()) return b->v ? a : mkNot(a);
                return mkNot(mkBin(K_XOR, a, b));
            }
            if (a->hi < b->lo || b->hi < a->lo || (a->ko & b->kz & M) || (a->kz & b->ko & M)) return mkConst(0, 1);
            if (b->isConst()) {
                if (a->k == K_ZEXT) return mkBin(K_EQ, a->a, mkConst(b->v, a->a->w));
                if (a->k == K_SEXT) {
                    if ((u128) (sext128(b->v & maskw(a->a->w), a->a->w)) == (u128) sext128(b->v, w)) return mkBin(K_EQ, a->a, mkConst(b->v, a->a->w));
                    return mkConst(0, 1);
                }
                if (a->k == K_CONCAT)
                    return mkAnd(mkBin(K_EQ, a->a, mkConst(b->v >> a->b->w, a->a->w)), mkBin(K_EQ, a->b, mkConst(b->v, a->b->w)));
                if (a->k == K_ADD && a->b->isConst()) return mkBin(K_EQ, a->a, mkConst(b->v - a->b->v, w));
                if (a->k == K_XOR && a->b->isConst()) return mkBin(K_EQ, a->a, mkConst(b->v ^ a->b->v, w));
                if (b->v == 0 && a->k == K_SUB) return mkBin(K_EQ, a->a, a->b);
            }
            if (a->k == K_ZEXT && b->k == K_ZEXT) {
                if (a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
                if (a->a->w < b->a->w) return mkBin(K_EQ, mkZExt(a->a, b->a->w), b->a);
                return mkBin(K_EQ, a->a, mkZExt(b->a, a->a->w));
            }
            if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w)
                return mkAnd(mkBin(K_EQ, a->a, b->a), mkBin(K_EQ, a->b, b->b));
            if (a->k == K_ADD && b->k == K_ADD && a->b == b->b) return mkBin(K_EQ, a->a, b->a);
            if (a->k == K_ADD && (a->a == b || a->b == b)) return mkBin(K_EQ, a->a == b ? a->b : a->a, mkConst(0, w));
            if (b->k == K_ADD && (b->a == a || b->b == a)) return mkBin(K_EQ, b->a == a ? b->b : b->a, mkConst(0, w));
            break;
        case K_ULT:
            if (a == b) return mkConst(0, 1);
            if (a->hi < b->lo) return mkTrue();
            if (a->lo >= b->hi) return mkConst(0, 1);
            if (w == 1) return mkAnd(mkNot(a), b);
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULT, a->a, b->a);
            if (a->k == K_ZEXT && b->isConst() && b->v <= maskw(a->a->w)) return mkBin(K_ULT, a->a, mkConst(b->v, a->a->w));
            if (b->k == K_ZEXT && a->isConst() && a->v <= maskw(b->a->w)) return mkBin(K_ULT, mkConst(a->v, b->a->w), b->a);
            if (b->isConst() && b->v == 1) return mkBin(K_EQ, a, mkConst(0, w));
            if (a->isConst() && a->v == 0) return mkNot(mkBin(K_EQ, b, a));
            break;
        case K_ULE:
            if (a == b) return mkTrue();
            if (a->hi <= b->lo) return mkTrue();
            if (a->lo > b->hi) return mkConst(0, 1);
            if (w == 1) return mkOr(mkNot(a), b);
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULE, a->a, b->a);
            if (a->k == K_ZEXT && b->isConst() && b->v <= maskw(a->a->w)) return mkBin(K_ULE, a->a, mkConst(b->v, a->a->w));
            if (b->k == K_ZEXT && a->isConst() && a->v <= maskw(b->a->w)) return mkBin(K_ULE, mkConst(a->v, b->a->w), b->a);
            break;
        case K_SLT: case K_SLE: {
            if (a == b) return mkConst(k == K_SLE, 1);
            bool an = (a->kz >> (w - 1)) & 1, bn = (b->kz >> (w - 1)) & 1;
            bool am = (a->ko >> (w - 1)) & 1, bm = (b->ko >> (w - 1)) & 1;
            if ((an && bn) || (am && bm)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
            if (an && bm) return mkConst(0, 1);
            if (am && bn) return mkTrue();
            if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
            break;
        }
        default: break;
    }
    return intern(k, rw, 0, a, b, nullptr, 0);
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (lo + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
    if (a->isConst()) return mkConst(a->v >> lo, w);
    u128 part = maskw(w);
    if (((a->kz | a->ko) >> lo & part) == part) return mkConst(a->ko >> lo, w);
    switch (a->k) {
        case K_EXTRACT: return mkExtract(a->a, a->p + lo, w);
        case K_CONCAT:
            if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
            if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
        case K_ZEXT:
            if (lo >= a->a->w) return mkConst(0, w);
            if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
            return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
        case K_SEXT:
            if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
            if (lo == 0) return mkSExt(a->a, w);
            if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
            break;
        case K_AND: case K_OR: case K_XOR:
            return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        case K_ITE:
            if (a->b->isConst() || a->c->isConst() || a->size < 64)
                return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
            break;
        case K_ADD: case K_SUB: case K_MUL:
            if (a->k == K_MUL && w >= 24 && !a->b->isConst()) break; // keep one wide product: the solver abstraction relates equal products
            if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
            break;
        default: break;
    }
    return intern(K_EXTRACT, w, lo, a, nullptr, nullptr, 0);
}

Expr *mkZExt(Expr *a, unsigned w) {
    if (w == a->w) return a;
    if (a->isConst()) return mkConst(a->v, w);
    if (a->k == K_ZEXT) return mkZExt(a->a, w);
    if (a->k == K_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    if (a->k == K_CONCAT && a->a->isConst() && a->a->v == 0) return mkZExt(a->b, w);
    // zext(extract(x,0,n)) where upper bits of x are zero and x->w == w
    if (a->k == K_EXTRACT && a->p == 0) {
        Expr *x = a->a;
        if (x->hi <= maskw(a->w)) {
            if (x->w == w) return x;
            if (x->w < w) return mkZExt(x, w);
        }
    }
    return intern(K_ZEXT, w, 0, a, nullptr, nullptr, 0);
}

Expr *mkSExt(Expr *a, unsigned w) {
    if (w == a->w) return a;
    if (a->isConst()) return mkConst((u128) sext128(a->v, a->w), w);
    if ((a->kz >> (a->w - 1)) & 1) return mkZExt(a, w);
    if (a->k == K_SEXT) return mkSExt(a->a, w);
    if (a->k == K_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return intern(K_SEXT, w, 0, a, nullptr, nullptr, 0);
}

Expr *mkConcat(Expr *h, Expr *l) {
    unsigned w = h->w + l->w;
    if (h->isConst() && l->isConst()) return mkConst((h->v << l->w) | l->v, w);
    if (h->isConst() && h->v == 0) return mkZExt(l, w);
    if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->a == l->a && h->p == l->p + l->w) return mkExtract(h->a, l->p, w);
    // extract of the top of something adjacent to a (simplified) low part
    if (h->k == K_EXTRACT && h->a->w <= 128 && h->p == l->w && mkExtract(h->a, 0, l->w) == l) return mkExtract(h->a, 0, w);
    if (l->k == K_CONCAT) return mkConcat(mkConcat(h, l->a), l->b);
    if (h->k == K_CONCAT) { // try to merge h's low part with l
        Expr *hl = h->b;
        if (hl->k == K_EXTRACT && l->k == K_EXTRACT && hl->a == l->a && hl->p == l->p + l->w)
            return mkConcat(h->a, mkExtract(l->a, l->p, hl->w + l->w));
        if (hl->isConst() && l->isConst()) return mkConcat(h->a, mkConcat(hl, l));
        if (hl->k == K_EXTRACT && hl->p == l->w && mkExtract(hl->a, 0, l->w) == l) return mkConcat(h->a, mkExtract(hl->a, 0, hl->w + l->w));
        if (hl->k == K_ITE && l->k == K_ITE && hl->a == l->a) return mkConcat(h->a, mkConcat(hl, l));
    }
    if (h->k == K_ZEXT && l->k == K_EXTRACT && h->a->k == K_EXTRACT && h->a->a == l->a && h->a->p == l->p + l->w)
        return mkZExt(mkExtract(l->a, l->p, h->a->w + l->w), w);
    if (h->k == K_ZEXT) return mkZExt(mkConcat(h->a, l), w);
    if (h->k == K_ITE && l->k == K_ITE && h->a == l->a) return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
    if (h->k == K_ITE && l->isConst() && h->b->isConst() && h->c->isConst()) return mkIte(h->a, mkConcat(h->b, l), mkConcat(h->c, l));
    if (l->k == K_ITE && h->isConst() && l->b->isConst() && l->c->isConst()) return mkIte(l->a, mkConcat(h, l->b), mkConcat(h, l->c));
    return intern(K_CONCAT, w, 0, h, l, nullptr, 0);
}

Expr *mkIte(Expr *c, Expr *t, Expr *f) {
    if (c->isConst()) return c->v ? t : f;
    if (t == f) return t;
    if (c->k == K_XOR && c->b->isConst() && c->w == 1) return mkIte(c->a, f, t);
    if (t->w == 1) {
        if (t->isConst() && f->isConst()) return t->v ? c : mkNot(c);
        if (t->isConst()) return t->v ? mkOr(c, f) : mkAnd(mkNot(c), f);
        if (f->isConst()) return f->v ? mkOr(mkNot(c), t) : mkAnd(c, t);
    }
    if (t->k == K_ITE && t->a == c) return mkIte(c, t->b, f);
    if (f->k == K_ITE && f->a == c) return mkIte(c, t, f->c);
    if (f->k == K_ITE && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
    return intern(K_ITE, t->w, 0, c, t, f, 0);
}

u128 evalExpr(Expr *e, const Model &m) {
    if (e->k == K_CONST) return e->v;
    if (e->k == K_VAR) return m.get(e->p) & maskw(e->w);
    auto it = m.memo.find(e->id);
    if (it != m.memo.end()) return it->second;
    u128 r;
    switch (e->k) {
        case K_EXTRACT: r = (evalExpr(e->a, m) >> e->p) & maskw(e->w); break;
        case K_ZEXT: r = evalExpr(e->a, m); break;
        case K_SEXT: r = (u128) sext128(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
        case K_CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
        case K_ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
        default: r = foldBin(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w);
    }
    m.memo[e->id] = r;
    return r;
}

const VarSet &exprVars(Expr *e) {
    static const VarSet empty;
    if (e->vars) return *e->vars;
    if (e->k == K_CONST) return *(e->vars = &empty);
    if (e->k == K_VAR) return *(e->vars = new VarSet{e->p});
    const VarSet *acc = &exprVars(e->a);
    for (Expr *x: {e->b, e->c}) {
        if (!x) continue;
        const VarSet *o = &exprVars(x);
        if (o == acc || o->empty()) continue;
        if (acc->empty()) { acc = o; continue; }
        if (std::includes(acc->begin(), acc->end(), o->begin(), o->end())) continue;
        if (std::includes(o->begin(), o->end(), acc->begin(), acc->end())) { acc = o; continue; }
        auto *n = new VarSet;
        std::set_union(acc->begin(), acc->end(), o->begin(), o->end(), std::back_inserter(*n));
        acc = n;
    }
    return *(e->vars = acc);
}

static const char *kn[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "concat", "extract", "zext", "sext", "ite"};
std::string exprStr(Expr *e, int d) {
    if (e->k == K_CONST) return std::to_string((uint64_t) e->v) + ":" + std::to_string(e->w);
    if (e->k == K_VAR) return "v" + std::to_string(e->p) + ":" + std::to_string(e->w);
    if (d == 0) return "...";
    std::string s = std::string("(") + kn[e->k];
    if (e->k == K_EXTRACT) s += "[" + std::to_string(e->p) + "+" + std::to_string(e->w) + "]";
    for (Expr *x: {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
    return s + ")";
}

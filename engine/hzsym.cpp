// hzsym: symbolic executor for LLVM 18 bitcode (see DESIGN.md).
#include "expr.h"
#include "solver.h"
#include <bitset>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <fstream>
#include <sstream>
#include <chrono>
#include <cstring>
#include <cmath>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;

// ------------------------------------------------------------------------------------------------ values
struct Value_ {
    Expr *e = nullptr;                       // symbolic (or wide constant)
    uint64_t c = 0;                          // concrete, if e == nullptr
    const std::vector<Value_> *agg = nullptr;
};
typedef Value_ Val;
static Val VC(uint64_t c) { Val v; v.c = c; return v; }
static uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static Val VE(Expr *e) {
    if (e->isConst() && e->w <= 64) return VC((uint64_t) e->v);
    Val v; v.e = e; return v;
}
static Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static bool isC(const Val &v) { return !v.e && !v.agg; }

// ------------------------------------------------------------------------------------------------ memory
static const unsigned SLOT_SHIFT = 24;
static const uint64_t SLOT = 1ull << SLOT_SHIFT;
static const uint64_t OBJ_OFF = 0x10000;     // every object starts 64 KiB into its slot
static const uint64_t MAX_OBJ = SLOT - 2 * OBJ_OFF;
enum ObjKind : uint8_t { O_GLOBAL, O_HEAP, O_NEW, O_NEWARR, O_STACK, O_FUNC, O_EXC };

struct Obj {
    uint64_t size = 0;
    ObjKind kind = O_HEAP;
    bool freed = false, ro = false;
    const char *name = "";
    uint32_t owner = 0;                      // state id that may write in place
    std::vector<uint8_t> conc;
    std::vector<Expr *> sym;                 // empty, or per byte: nullptr = concrete, UNINIT, or expr of width 8
};
typedef std::shared_ptr<Obj> ObjP;
static Expr uninitMarker;
#define UNINIT (&uninitMarker)

struct Page { ObjP o[64]; };
struct Memory {
    std::vector<std::shared_ptr<Page>> pages;
    uint64_t next = 1;
    std::vector<uint64_t> recycle;           // stack slots waiting for reuse
    size_t recycleHead = 0;
    ObjP *slot(uint64_t i) {
        if ((i >> 6) >= pages.size()) return nullptr;
        auto &p = pages[i >> 6];
        if (!p) return nullptr;
        return &p->o[i & 63];
    }
    ObjP *wslot(uint64_t i) {
        if ((i >> 6) >= pages.size()) pages.resize((i >> 6) + 1);
        auto &p = pages[i >> 6];
        if (!p) p = std::make_shared<Page>();
        else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
        return &p->o[i & 63];
    }
};
static uint64_t slotAddr(uint64_t s) { return (s << SLOT_SHIFT) + OBJ_OFF; }

// ------------------------------------------------------------------------------------------------ decoded code
struct Opnd { int slot = -1; Val cst; uint8_t w = 64; uint64_t tls = 0; };
struct DFunc;
struct GepTerm { Opnd op; uint64_t stride; unsigned w; };
struct DInst {
    unsigned opc = 0;
    Instruction *I = nullptr;
    int dst = -1;
    unsigned w = 0;                          // result width (int/ptr), 0 = none/aggregate
    unsigned ow = 0;                         // operand width
    unsigned pred = 0;
    Type *ty = nullptr;
    std::vector<Opnd> ops;
    std::vector<unsigned> idx;               // extract/insertvalue indices, switch/br targets, phi blocks
    uint64_t imm = 0;
    std::vector<GepTerm> gep;
    Function *callee = nullptr;
    int intr = -1;                           // builtin id
    std::vector<uint64_t> swv;
};
struct DFunc {
    Function *F;
    std::string name, file;
    bool inRepo = false;
    std::vector<DInst> code;
    std::vector<unsigned> blockStart;
    int nslots = 0;
    uint64_t calls = 0;
    std::vector<uint64_t> execCount;
};

struct Frame {
    DFunc *f;
    unsigned pc = 0, prevBlock = 0, curBlock = 0;
    int retSlot = -1;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;           // slots
    std::vector<Val> varargs;
    bool isThreadRoot = false;
};

struct Caught { uint64_t exc; };
struct Thread {
    std::vector<Frame> stack;
    std::vector<uint64_t> caught;            // stack of caught exception objects (addresses)
    uint64_t pendingExc = 0;
    bool done = false;
    uint64_t waitOn = 0;                     // nonzero: blocked on key
    std::vector<Function *> queue;           // functions still to be called (main thread only)
    size_t qpos = 0;
};
struct InputRec { std::string name; uint32_t var; unsigned bytes; bool choice; uint64_t chosen; };
struct Observe { std::string name; Expr *e; };

typedef std::bitset<256> Dom;
struct State {
    uint32_t id;
    std::vector<Thread> threads;
    unsigned cur = 0;
    Memory mem;
    std::vector<Expr *> pc;
    ModelP model;
    std::vector<InputRec> inputs;
    std::vector<Observe> obs;
    uint64_t steps = 0;
    unsigned depth = 0;
    unsigned preempts = 0;
    uint32_t nvars = 0;
    std::map<uint32_t, Dom> dom;                            // values of narrow variables allowed by the unary constraints
    std::vector<char> pinned;                               // variables with only one possible value
    std::map<std::string, uint64_t> excTypes;  // unused
    std::map<uint64_t, std::pair<uint64_t, uint64_t>> exc;  // exception object addr -> {typeinfo addr, dtor}
    std::map<uint64_t, int> excRef;
    std::map<std::string, unsigned> nameCount;
    std::vector<std::string> choiceTrace;
    bool forcedSwitch = false;
    bool mergeTerminated = false;
    std::string endKind;
    std::map<std::pair<unsigned, uint64_t>, uint64_t> tls;  // thread-local variables of threads other than the first
};
typedef std::unique_ptr<State> StateP;

struct Violation { std::string kind, msg, where, trace; std::vector<InputRec> inputs; ModelP model; std::vector<Observe> obs; };

struct PathEnd { std::string kind; };     // thrown to terminate the current path
struct Reexec {};                          // thrown to re-run the current instruction after a fork
struct EngineError { std::string msg; };

enum Intr {
    I_NONE, I_IGN, I_ZERO, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_MALLOC, I_CALLOC, I_REALLOC, I_FREE, I_NEW, I_NEWARR, I_DEL, I_DELARR, I_MEMCMP, I_STRLEN,
    I_SYMBOLIC, I_ASSUME, I_CHECK, I_CHOOSE, I_OBSERVE, I_REACH, I_EXIT, I_PARAM, I_CONCRETIZE, I_ABORT, I_FAIL, I_BOUND, I_ISSYM, I_LIVE, I_PREDICT,
    I_THREAD, I_WAIT, I_WAKE, I_SCHED, I_SELF, I_OBSOFF, I_DEPTHLIM,
    I_ALLOCEXC, I_FREEEXC, I_THROW, I_BEGINCATCH, I_ENDCATCH, I_RETHROW, I_RESUME, I_GETEXCPTR, I_TERMINATE, I_TYPEID, I_PUREVIRT, I_CUREXCTYPE, I_UNCAUGHT,
    I_GUARDACQ, I_GUARDREL, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTLZ, I_CTTZ, I_CTPOP, I_BSWAP, I_FSHL, I_FSHR, I_BITREV,
    I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_USUBSAT, I_UADDSAT, I_SSUBSAT, I_SADDSAT, I_FMATH1, I_FMATH2, I_FMA, I_EXPECT, I_OBJSIZE, I_TRAP, I_ISCONST, I_TLSADDR, I_UNSUPPORTED,
    I_STACKSAVE, I_MEMCHR, I_PATHSTEPS, I_VASTART, I_NOTE, I_OBJSIZEQ
};

struct Engine {
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout *DL = nullptr;
    Solver solver;
    std::unordered_map<const Function *, std::unique_ptr<DFunc>> dfuncs;
    std::unordered_map<uint64_t, Function *> addrFunc;
    std::unordered_map<const GlobalValue *, uint64_t> gaddr;
    std::map<std::string, std::string> params;
    std::vector<StateP> stack;
    State *S = nullptr;
    Memory initMem;
    uint32_t nextStateId = 1, nextVar = 0;
    std::map<std::pair<uint32_t, unsigned>, uint32_t> canonVar;
    unsigned indexFork = 0;             // 1: writes, 2: all accesses at symbolic offsets fork over the possible offsets
    std::vector<unsigned> varWidth;
    std::vector<Violation> violations;
    std::map<std::string, uint64_t> reach, endKinds, incomplete;
    uint64_t paths = 0, instrs = 0, forks = 0, checks = 0, checksProved = 0, checksConst = 0;
    uint64_t maxSteps = 3000000, maxPaths = 10000000, maxInstrs = ~0ull;
    double maxSeconds = 600;
    unsigned maxViol = 5;
    unsigned maxPreempt = 1000000;
    size_t sampleTarget = 5;
    std::string repoDir = "/repo";
    std::string outDir;
    std::chrono::steady_clock::time_point t0;
    std::vector<std::string> samples;
    std::set<std::string> vioKeys;
    uint64_t seed = 1, rnd = 88172645463325252ull;
    unsigned samplesWritten = 0;
    bool timedOut = false;
    std::string depthFn;
    uint64_t rand64() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
    std::unordered_map<std::string, Intr> builtins;
    std::set<std::string> notes, encoded;

    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    // ---------------------------------------------------------------------------------------- objects
    uint64_t allocSlot(Memory &m, bool stackObj) {
        (void) stackObj;
        if (m.recycle.size() - m.recycleHead > 512) {
            uint64_t s = m.recycle[m.recycleHead++];
            if (m.recycleHead > 4096) { m.recycle.erase(m.recycle.begin(), m.recycle.begin() + m.recycleHead); m.recycleHead = 0; }
            return s;
        }
        return m.next++;
    }
    uint64_t alloc(Memory &m, uint64_t size, ObjKind k, const char *name, bool init0, uint32_t owner) {
        if (size > MAX_OBJ) throw PathEnd{"bound:allocation-too-large"};
        uint64_t s = allocSlot(m, k == O_STACK);
        auto o = std::make_shared<Obj>();
        o->size = size; o->kind = k; o->name = name; o->owner = owner;
        o->conc.assign(size, 0);
        if (!init0) o->sym.assign(size, UNINIT);
        *m.wslot(s) = o;
        return slotAddr(s);
    }
    void release(Memory &m, uint64_t addr) {
        uint64_t s = addr >> SLOT_SHIFT;
        ObjP old = *m.slot(s);
        auto o = std::make_shared<Obj>();
        o->size = old->size; o->kind = old->kind; o->name = old->name; o->freed = true;
        *m.wslot(s) = o;
        if (old->kind == O_STACK) m.recycle.push_back(s);
    }
    Obj *robj(uint64_t addr) {
        ObjP *p = S->mem.slot(addr >> SLOT_SHIFT);
        return p ? p->get() : nullptr;
    }
    Obj *wobj(uint64_t addr) {
        ObjP *p = S->mem.wslot(addr >> SLOT_SHIFT);
        if (p->use_count() > 1 || (*p)->owner != S->id) {
            auto n = std::make_shared<Obj>(**p);
            n->owner = S->id;
            *p = n;
        }
        return p->get();
    }
    std::string describeAddr(uint64_t a) {
        char buf[200];
        uint64_t base = slotAddr(a >> SLOT_SHIFT);
        Obj *o = a >= SLOT ? robj(a) : nullptr;
        if (!o) { snprintf(buf, sizeof buf, "address 0x%llx (%s)", (unsigned long long) a, a < SLOT ? "null page" : "unmapped"); return buf; }
        const char *k = o->kind == O_GLOBAL ? "global" : o->kind == O_STACK ? "stack" : o->kind == O_FUNC ? "function" : "heap";
        snprintf(buf, sizeof buf, "offset %lld of a %s%s object of %llu bytes %s", (long long) (a - base), o->freed ? "freed " : "", k, (unsigned long long) o->size, o->name);
        return buf;
    }
    // ---------------------------------------------------------------------------------------- solver front end
    std::vector<Expr *> slice(Expr *c) {
        // constraints transitively sharing variables with c
        std::vector<Expr *> out{c};
        std::vector<char> used(S->pc.size(), 0);
        std::unordered_set<uint32_t> vs(exprVars(c).begin(), exprVars(c).end());
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < S->pc.size(); i++) {
                if (used[i]) continue;
                const VarSet &v = exprVars(S->pc[i]);
                bool hit = false;
                for (uint32_t x: v) if (vs.count(x)) { hit = true; break; }
                if (hit) { used[i] = 1; ch = true; out.push_back(S->pc[i]); for (uint32_t x: v) vs.insert(x); }
            }
        }
        return out;
    }
    SatResult feasible(Expr *c, ModelP *out) {
        if (c->isConst()) { if (out) *out = S->model; return c->v ? R_SAT : R_UNSAT; }
        if (useQuick && quick(c) == 0) return R_UNSAT;
        if (evalExpr(c, *S->model)) { if (out) *out = S->model; return R_SAT; }
        return solver.check(slice(c), S->model, out);
    }
    void addPC(Expr *c) {
        if (c->isConst()) return;
        if (c->k == K_AND && c->w == 1) { addPC(c->a); addPC(c->b); return; }
        for (Expr *x: S->pc) if (x == c) return;
        S->pc.push_back(c);
        uint32_t v;
        if (const Dom *t = table(c, v)) {
            auto it = S->dom.find(v);
            if (it == S->dom.end()) it = S->dom.insert({v, domFull(varWidth[v])}).first;
            it->second &= *t;
            if (it->second.count() == 1) pin(v);
        } else if (c->k == K_EQ && c->b->isConst()) {
            Expr *x = c->a;
            while (true) {
                if (x->k == K_ZEXT || x->k == K_SEXT) x = x->a;
                else if ((x->k == K_ADD || x->k == K_XOR || x->k == K_SUB) && x->b->isConst()) x = x->a;
                else if (x->k == K_CONCAT && x->a->isConst()) x = x->b;
                else if (x->k == K_CONCAT && x->b->isConst()) x = x->a;
                else break;
            }
            if (x->k == K_VAR) pin(x->p);
        }
    }
    // ---- narrow variables: truth tables of conditions over one variable of at most 8 bits
    std::unordered_map<uint32_t, std::pair<uint32_t, std::unique_ptr<Dom>>> tables;
    uint64_t domainDecisions = 0;
    bool useQuick = true;
    static Dom domFull(unsigned w) { Dom d; for (unsigned i = 0; i < (1u << w); i++) d.set(i); return d; }
    const Dom *table(Expr *c, uint32_t &v) {
        auto it = tables.find(c->id);
        if (it != tables.end()) { v = it->second.first; return it->second.second.get(); }
        auto &e = tables[c->id];
        const VarSet &vs = exprVars(c);
        if (vs.size() != 1 || varWidth[vs[0]] > 8 || c->size > 3000) return nullptr;
        e.first = v = vs[0];
        e.second = std::make_unique<Dom>();
        Model m;
        m.val.resize(v + 1, 0);
        for (unsigned i = 0; i < (1u << varWidth[v]); i++) {
            m.val[v] = i;
            m.memo.clear();
            if (evalExpr(c, m)) e.second->set(i);
        }
        return e.second.get();
    }
    void pin(uint32_t v) { if (S->pinned.size() <= v) S->pinned.resize(v + 1, 0); S->pinned[v] = 1; }
    bool allPinned(Expr *e) {
        const VarSet &vs = exprVars(e);
        if (S->pinned.empty() || vs.size() > 16) return false;
        for (uint32_t v: vs) if (v >= S->pinned.size() || !S->pinned[v]) return false;
        return true;
    }
    // 1: c holds on this path, 0: it does not, -1: not known without the solver
    int quick(Expr *c) {
        if (allPinned(c)) { domainDecisions++; return evalExpr(c, *S->model) ? 1 : 0; }
        uint32_t v;
        if (const Dom *t = table(c, v)) {
            auto it = S->dom.find(v);
            Dom d = it == S->dom.end() ? domFull(varWidth[v]) : it->second;
            Dom x = d & *t;
            if (x.none()) { domainDecisions++; return 0; }
            if (x == d) { domainDecisions++; return 1; }
        }
        return -1;
    }
    // can c be true? / must c be true?
    bool mayBeTrue(Expr *c, ModelP *m = nullptr) {
        SatResult r = feasible(c, m);
        if (r == R_UNKNOWN) { incomplete["solver-timeout"]++; return false; }
        return r == R_SAT;
    }
    State *forkState() {
        auto n = std::make_unique<State>(*S);
        n->id = nextStateId++;
        S->id = nextStateId++;               // both lose in-place write rights on shared objects
        n->depth = ++S->depth;
        forks++;
        State *p = n.get();
        stack.push_back(std::move(n));
        return p;
    }
    // decide a branch condition; forks if both sides are feasible. Returns the side taken by the current state.
    // The alternative is left on the stack: it re-executes the current instruction with the condition decided.
    bool branch(Expr *c) {
        if (c->isConst()) return c->v;
        int k = quick(c);
        if (k >= 0) return k;
        bool cur = evalExpr(c, *S->model);
        Expr *other = cur ? mkNot(c) : c;
        ModelP m;
        SatResult r = solver.check(slice(other), S->model, &m);
        if (r == R_UNKNOWN) incomplete["solver-timeout"]++;
        if (r == R_SAT) {
            State *n = forkState();
            std::swap(S->pc, S->pc);
            State *save = S;
            S = n; addPC(other); n->model = m; S = save;
        }
        addPC(cur ? c : mkNot(c));
        return cur;
    }
    // make v concrete; forks off the other values (which re-execute the current instruction)
    uint64_t concretize(const Val &v, unsigned w) {
        if (!v.e) return v.c;
        if (v.e->isConst()) return (uint64_t) v.e->v;
        uint64_t c = (uint64_t) evalExpr(v.e, *S->model);
        if (allPinned(v.e)) return c;
        Expr *eq = mkEq(v.e, mkConst(c, w));
        if (!eq->isConst()) branch(eq);
        return c;
    }
    // ---------------------------------------------------------------------------------------- violations
    std::string where(const Thread &t) {
        std::string s;
        int n = 0;
        for (int i = (int) t.stack.size() - 1; i >= 0 && n < 6; i--) {
            const Frame &f = t.stack[i];
            std::string fn = demangle(f.f->name);
            if (fn.size() > 90) fn = fn.substr(0, 87) + "...";
            unsigned line = 0;
            std::string file;
            unsigned pc = f.pc ? (i == (int) t.stack.size() - 1 ? f.pc : f.pc) : 0;
            if (pc < f.f->code.size()) if (const DebugLoc &d = f.f->code[pc].I->getDebugLoc()) {
                line = d.getLine();
                if (auto *sc = dyn_cast_or_null<DIScope>(d.getScope())) file = sc->getFilename().str();
            }
            size_t p = file.rfind('/');
            if (n) s += " <- ";
            s += fn + (line ? " (" + (p == std::string::npos ? file : file.substr(p + 1)) + ":" + std::to_string(line) + ")" : "");
            n++;
        }
        return s;
    }
    void report(const std::string &kind, const std::string &msg, ModelP m) {
        Violation v;
        v.kind = kind; v.msg = msg; v.where = where(S->threads[S->cur]);
        v.inputs = S->inputs; v.model = m ? m : S->model; v.obs = S->obs;
        for (auto &c: S->choiceTrace) v.trace += c + " ";
        std::string key = kind + "|" + msg + "|" + v.where;
        if (vioKeys.insert(key).second || violations.size() < 2) violations.push_back(std::move(v));
        // a violation is known: what is left of the run looks for others, for a limited time
        if (violations.size() == 1) { maxSeconds = std::min(maxSeconds, elapsed() + 40); solver.timeoutMs = std::min(solver.timeoutMs, 10000u); }
    }
    [[noreturn]] void die(const std::string &kind, const std::string &msg, ModelP m = nullptr) {
        report(kind, msg, m);
        throw PathEnd{"violation"};
    }
    // ---------------------------------------------------------------------------------------- memory access
    // resolve (ptr, n): returns concrete base slot address and offset expression/constant
    struct Ref { uint64_t base; Obj *o; bool symOff; uint64_t off; Expr *offE; };
    Ref resolve(const Val &p, uint64_t n, bool write, const char *what) {
        Ref r{};
        if (isC(p)) {
            uint64_t a = p.c;
            Obj *o = a >= SLOT ? robj(a) : nullptr;
            if (!o || o->kind == O_FUNC) die("memory", std::string(what) + ": invalid " + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + describeAddr(a));
            uint64_t base = slotAddr(a >> SLOT_SHIFT);
            if (o->freed) die("memory", std::string(what) + ": use after free of " + describeAddr(a));
            if (a < base || a - base > o->size || n > o->size - (a - base))
                die("memory", std::string(what) + ": out-of-bounds " + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + describeAddr(a));
            if (write && o->ro) die("memory", std::string(what) + ": write to read-only memory");
            r.base = base; r.o = o; r.off = a - base; r.symOff = false;
            return r;
        }
        Expr *e = p.e;
        if (e->k == K_ITE) { // pointer select: decide it
            bool t = branch(e->a);
            return resolve(VE(t ? e->b : e->c), n, write, what);
        }
        uint64_t a = (uint64_t) evalExpr(e, *S->model);
        // provenance: a constant summand that is an object address
        uint64_t base = 0;
        std::vector<Expr *> st{e};
        while (!st.empty() && !base) {
            Expr *x = st.back(); st.pop_back();
            if (x->k == K_CONST) { uint64_t c = (uint64_t) x->v; if (c >= SLOT && robj(c + 0x8000) ) base = slotAddr((c + 0x8000) >> SLOT_SHIFT); }
            else if (x->k == K_ADD) { st.push_back(x->a); st.push_back(x->b); }
            else if (x->k == K_SUB) { st.push_back(x->a); }
        }
        Obj *o = nullptr;
        if (base) o = robj(base);
        else {
            // a pointer with a symbolic base: fix the object
            o = a >= SLOT ? robj(a) : nullptr;
            base = slotAddr(a >> SLOT_SHIFT);
            if (!o || o->freed || a < base || a - base > o->size) {
                uint64_t c = concretize(p, 64);
                return resolve(VC(c), n, write, what);
            }
            Expr *in = mkAnd(mkBin(K_ULE, mkConst(base, 64), e), mkBin(K_ULE, e, mkConst(base + o->size, 64)));
            branch(in);
        }
        if (o->kind == O_FUNC || o->freed) die("memory", std::string(what) + ": use of " + describeAddr(base));
        Expr *off = mkBin(K_SUB, e, mkConst(base, 64));
        if (n > o->size) die("memory", std::string(what) + ": out-of-bounds access at symbolic offset of " + describeAddr(base));
        Expr *bad = mkNot(mkBin(K_ULE, off, mkConst(o->size - n, 64)));
        ModelP m;
        if (!bad->isConst() || bad->v) {
            SatResult sr = feasible(bad, &m);
            if (sr == R_UNKNOWN) incomplete["solver-timeout"]++;
            if (sr == R_SAT) {
                uint64_t ba = (uint64_t) evalExpr(e, *m);
                report("memory", std::string(what) + ": out-of-bounds " + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + describeAddr(ba), m);
                ModelP m2;
                Expr *good = mkNot(bad);
                if (feasible(good, &m2) != R_SAT) throw PathEnd{"violation"};
                S->model = m2;
                addPC(good);
            }
            else if (sr == R_UNSAT) {}
        }
        if (write && o->ro) die("memory", std::string(what) + ": write to read-only memory");
        r.base = base; r.o = o;
        if (off->isConst()) { r.off = (uint64_t) off->v; r.symOff = false; }
        else if (indexFork && (write || indexFork > 1)) { r.off = concretize(VE(off), 64); r.symOff = false; }
        else { r.symOff = true; r.offE = off; r.off = 0; }
        return r;
    }
    // candidate concrete values of an in-bounds symbolic offset
    std::vector<uint64_t> candidates(Expr *off, uint64_t maxOff) {
        uint64_t lo = (uint64_t) off->lo, hi = (uint64_t) std::min<u128>(off->hi, maxOff);
        unsigned tz = 0;
        while (tz < 12 && ((off->kz >> tz) & 1)) tz++;
        uint64_t stride = 1ull << tz;
        lo = (lo + stride - 1) / stride * stride;
        uint64_t cnt = hi >= lo ? (hi - lo) / stride + 1 : 0;
        std::vector<uint64_t> out;
        if (cnt > 6) {
            // try to enumerate the feasible values
            std::vector<Expr *> cs = slice(off);
            cs.erase(cs.begin());
            uint64_t v0 = (uint64_t) evalExpr(off, *S->model);
            std::set<uint64_t> found{v0};
            Expr *excl = mkNot(mkEq(off, mkConst(v0, 64)));
            bool complete = false;
            unsigned lim = cnt > 4096 ? 300 : 20;
            while (found.size() <= lim) {
                cs.push_back(excl);
                ModelP m;
                SatResult r = solver.check(cs, S->model, &m);
                if (r == R_UNSAT) { complete = true; break; }
                if (r == R_UNKNOWN) break;
                uint64_t v = (uint64_t) evalExpr(off, *m);
                found.insert(v);
                excl = mkNot(mkEq(off, mkConst(v, 64)));
            }
            if (complete) { out.assign(found.begin(), found.end()); return out; }
        }
        if (cnt > 8192) return {};
        for (uint64_t i = 0; i < cnt; i++) out.push_back(lo + i * stride);
        return out;
    }
    Expr *byteAt(uint64_t base, Obj *&o, uint64_t i) {
        if (o->sym.empty() || !o->sym[i]) return mkConst(o->conc[i], 8);
        if (o->sym[i] == UNINIT) {
            Expr *v = freshVar(8);
            o = wobj(base);
            o->sym[i] = v;
            return v;
        }
        return o->sym[i];
    }
    Expr *freshVar(unsigned w) {
        // the k-th variable of a path is shared by all paths (paths never mix), so that queries repeat and are cached
        auto r = canonVar.insert({{S->nvars++, w}, nextVar});
        if (r.second) { nextVar++; varWidth.push_back(w); }
        return mkVar(w, r.first->second);
    }
    Val loadAt(uint64_t base, Obj *o, uint64_t off, unsigned nbytes) {
        bool conc = true;
        if (!o->sym.empty()) for (unsigned i = 0; i < nbytes; i++) if (o->sym[off + i]) { conc = false; break; }
        if (conc && nbytes <= 8) {
            uint64_t v = 0;
            memcpy(&v, o->conc.data() + off, nbytes);
            return VC(v);
        }
        // all uninitialised: one fresh variable
        if (!o->sym.empty() && nbytes <= 8) {
            bool all = true;
            for (unsigned i = 0; i < nbytes; i++) if (o->sym[off + i] != UNINIT) { all = false; break; }
            if (all) {
                Expr *v = freshVar(8 * nbytes);
                o = wobj(base);
                for (unsigned i = 0; i < nbytes; i++) o->sym[off + i] = mkExtract(v, 8 * i, 8);
                return VE(v);
            }
        }
        Expr *e = nullptr;
        for (unsigned i = 0; i < nbytes; i++) {
            Expr *b = byteAt(base, o, off + i);
            e = e ? mkConcat(b, e) : b;
        }
        if (nbytes <= 8 && !e->isConst() && allPinned(e)) return VC((uint64_t) evalExpr(e, *S->model));
        return VE(e);
    }
    Val load(const Val &p, unsigned nbytes) {
        Ref r = resolve(p, nbytes, false, "load");
        if (!r.symOff) return loadAt(r.base, r.o, r.off, nbytes);
        auto cand = candidates(r.offE, r.o->size - nbytes);
        if (cand.empty()) {
            uint64_t c = concretize(VE(r.offE), 64);
            return loadAt(r.base, robj(r.base), c, nbytes);
        }
        std::map<Expr *, std::vector<uint64_t>> groups;
        std::vector<Expr *> order;
        for (uint64_t c: cand) {
            if (c + nbytes > r.o->size) continue;
            Expr *e = toE(loadAt(r.base, robj(r.base), c, nbytes), 8 * nbytes);
            auto &g = groups[e];
            if (g.empty()) order.push_back(e);
            g.push_back(c);
        }
        Expr *def = order[0];
        for (Expr *e: order) if (groups[e].size() > groups[def].size()) def = e;
        Expr *res = def;
        for (size_t k = order.size(); k-- > 0;) {
            Expr *e = order[k];
            if (e == def) continue;
            Expr *c = mkConst(0, 1);
            auto &g = groups[e];
            for (uint64_t o: g) c = mkOr(c, mkEq(r.offE, mkConst(o, 64)));
            res = mkIte(c, e, res);
        }
        return VE(res);
    }
    void storeAt(Obj *o, uint64_t off, const Val &v, unsigned nbytes) {
        if (isC(v)) {
            uint64_t c = v.c;
            memcpy(o->conc.data() + off, &c, nbytes);
            if (!o->sym.empty()) for (unsigned i = 0; i < nbytes; i++) o->sym[off + i] = nullptr;
            return;
        }
        if (o->sym.empty()) o->sym.assign(o->size, nullptr);
        for (unsigned i = 0; i < nbytes; i++) setByte(o, off + i, mkExtract(v.e, 8 * i, 8));
    }
    void setByte(Obj *o, uint64_t i, Expr *b) {
        if (b->isConst()) { o->conc[i] = (uint8_t) b->v; if (!o->sym.empty()) o->sym[i] = nullptr; }
        else { if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[i] = b; }
    }
    void store(const Val &p, Val v, unsigned w) {
        unsigned nbytes = (w + 7) / 8;
        if (w % 8) { v = VE(mkZExt(toE(v, w), 8 * nbytes)); w = 8 * nbytes; }
        if (!v.e && nbytes > 8) v.e = mkConst(v.c, w);
        Ref r = resolve(p, nbytes, true, "store");
        if (!r.symOff) {
            Obj *o = wobj(r.base);
            storeAt(o, r.off, v, nbytes);
            return;
        }
        auto cand = candidates(r.offE, r.o->size - nbytes);
        if (cand.empty()) {
            uint64_t c = concretize(VE(r.offE), 64);
            storeAt(wobj(r.base), c, v, nbytes);
            return;
        }
        Expr *e = toE(v, w);
        Obj *o = wobj(r.base);
        for (uint64_t c: cand) {
            if (c + nbytes > o->size) continue;
            Expr *g = mkEq(r.offE, mkConst(c, 64));
            for (unsigned i = 0; i < nbytes; i++)
                setByte(o, c + i, mkIte(g, mkExtract(e, 8 * i, 8), byteAt(r.base, o, c + i)));
        }
    }
    uint8_t concreteByte(uint64_t a) {
        Val v = load(VC(a), 1);
        return (uint8_t) concretize(v, 8);
    }
    std::string readStr(uint64_t a) {
        std::string s;
        while (s.size() < 4096) { uint8_t b = concreteByte(a++); if (!b) break; s += (char) b; }
        return s;
    }
#include "decode.inc"
#include "exec.inc"
#include "driver.inc"
};

static Engine *eng;
static int gArgc;
static char **gArgv;
static int gRet;
static void *bigMain(void *) {
    eng = new Engine();
    gRet = eng->mainLoop(gArgc, gArgv);
    return nullptr;
}
int main(int argc, char **argv) {
    gArgc = argc; gArgv = argv;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 2ull << 30);
    pthread_t t;
    pthread_create(&t, &a, bigMain, nullptr);
    pthread_join(t, nullptr);
    fflush(stdout);
    _exit(gRet);
}

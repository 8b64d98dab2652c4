    // ---------------------------------------------------------------------------------------- execution
    Thread &T() { return S->threads[S->cur]; }
    Frame &F() { return S->threads[S->cur].stack.back(); }
    Val get(const Frame &f, const Opnd &o) {
        if (o.slot >= 0) return f.regs[o.slot];
        return o.tls && S->cur ? VC(tlsAddr(o.tls) + (o.cst.c - o.tls)) : o.cst;
    }
    void set(Frame &f, const DInst &d, const Val &v) { if (d.dst >= 0) f.regs[d.dst] = v; }

    void pushFrame(Thread &t, Function *fn, const std::vector<Val> &args, int retSlot) {
        DFunc *df = getDF(fn);
        if (fn->isDeclaration()) throw EngineError{"call of undefined function " + fn->getName().str()};
        if (t.stack.size() > 3000) die("recursion", "call depth exceeds 3000 frames in " + demangle(df->name));
        df->calls++;
        Frame f;
        f.f = df; f.retSlot = retSlot;
        f.regs.resize(df->nslots);
        unsigned na = fn->arg_size();
        for (unsigned i = 0; i < na && i < args.size(); i++) {
            f.regs[i] = args[i];
            if (fn->getArg(i)->hasByValAttr()) {
                uint64_t sz = DL->getTypeAllocSize(fn->getParamByValType(i));
                uint64_t a = alloc(S->mem, sz, O_STACK, "byval", false, S->id);
                copyBytes(a, args[i].c, sz, "byval");
                f.allocas.push_back(a);
                f.regs[i] = VC(a);
            }
        }
        for (unsigned i = na; i < args.size(); i++) f.varargs.push_back(args[i]);
        t.stack.push_back(std::move(f));
    }
    void popFrame(Thread &t) {
        for (uint64_t a: t.stack.back().allocas) release(S->mem, a);
        t.stack.pop_back();
    }
    void copyBytes(uint64_t dst, uint64_t src, uint64_t n, const char *what) {
        if (!n) return;
        Ref s = resolve(VC(src), n, false, what);
        Ref d = resolve(VC(dst), n, true, what);
        bool same = s.base == d.base;
        std::vector<uint8_t> cb;
        std::vector<Expr *> sb;
        const uint8_t *cp = s.o->conc.data() + s.off;
        if (same) { cb.assign(cp, cp + n); cp = cb.data(); }
        bool anySym = false;
        if (!s.o->sym.empty()) {
            // materialise uninitialised source bytes lazily: copy the marker
            sb.assign(s.o->sym.begin() + s.off, s.o->sym.begin() + s.off + n);
            for (Expr *e: sb) if (e) { anySym = true; break; }
        }
        ObjP keep = *S->mem.slot(src >> SLOT_SHIFT);
        Obj *o = wobj(d.base);
        memcpy(o->conc.data() + d.off, cp, n);
        if (anySym) {
            if (o->sym.empty()) o->sym.assign(o->size, nullptr);
            std::copy(sb.begin(), sb.end(), o->sym.begin() + d.off);
        } else if (!o->sym.empty()) std::fill(o->sym.begin() + d.off, o->sym.begin() + d.off + n, nullptr);
    }
    void gotoBlock(Frame &f, unsigned b) {
        f.prevBlock = f.curBlock;
        f.curBlock = b;
        f.pc = f.f->blockStart[b];
        // evaluate all phis together
        const auto &code = f.f->code;
        unsigned p = f.pc;
        if (code[p].opc == Instruction::PHI) {
            std::vector<Val> vals;
            while (code[p].opc == Instruction::PHI) {
                const DInst &x = code[p];
                bool ok = false;
                for (size_t k = 0; k < x.idx.size(); k++) if (x.idx[k] == f.prevBlock) { vals.push_back(get(f, x.ops[k])); ok = true; break; }
                if (!ok) throw EngineError{"phi without matching predecessor"};
                p++;
            }
            for (unsigned q = f.pc; q < p; q++) f.regs[code[q].dst] = vals[q - f.pc];
            f.pc = p;
        }
    }
    // ---------------------------------------------------------------------------------------- scheduling
    std::vector<unsigned> runnable(State *s) {
        std::vector<unsigned> r;
        for (unsigned i = 0; i < s->threads.size(); i++) if (!s->threads[i].done && !s->threads[i].waitOn) r.push_back(i);
        return r;
    }
    void recordChoice(State *s, const std::string &name, uint64_t v) {
        InputRec r; r.name = name; r.var = 0; r.bytes = 0; r.choice = true; r.chosen = v;
        s->inputs.push_back(r);
        s->choiceTrace.push_back(name + "=" + std::to_string(v));
    }
    // current thread cannot continue: choose another (forking over the alternatives)
    void pickNext() {
        auto r = runnable(S);
        if (r.empty()) {
            std::string m = "deadlock: no thread can run;";
            for (unsigned i = 0; i < S->threads.size(); i++) if (!S->threads[i].done) m += " thread " + std::to_string(i) + " blocked";
            report("deadlock", m, nullptr);
            throw PathEnd{"violation"};
        }
        if (r.size() == 1) { S->cur = r[0]; return; }
        for (size_t k = r.size(); k-- > 1;) {
            State *n = forkState();
            n->cur = r[k];
            recordChoice(n, "sched", k);
        }
        S->cur = r[0];
        recordChoice(S, "sched", 0);
    }
    void schedPoint() { // pc already advanced
        auto r = runnable(S);
        if (r.size() <= 1) return;
        if (S->preempts >= maxPreempt) return;
        unsigned curIdx = 0;
        for (size_t k = 0; k < r.size(); k++) if (r[k] == S->cur) curIdx = k;
        for (size_t k = r.size(); k-- > 0;) {
            if (k == curIdx) continue;
            State *n = forkState();
            n->cur = r[k];
            n->preempts++;
            recordChoice(n, "sched", k);
        }
        recordChoice(S, "sched", curIdx);
    }
    // ---------------------------------------------------------------------------------------- exceptions
    std::unordered_map<uint64_t, int> typeIds;
    int typeId(uint64_t ti) { if (!ti) return 1; auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = 2 + typeIds.size(); return typeIds[ti] = n; }
    bool clauseMatch(uint64_t excTi, uint64_t clauseTi, int64_t &adj) {
        adj = 0;
        if (!clauseTi) return true;
        GlobalVariable *a = tiGlobal(excTi), *b = tiGlobal(clauseTi);
        return a && b && tiMatch(a, b, adj);
    }
    const DInst *padOf(Frame &f) {
        const DInst &d = f.f->code[f.pc];
        if (d.opc != Instruction::Invoke) return nullptr;
        unsigned p = f.f->blockStart[d.idx[1]];
        while (f.f->code[p].opc == Instruction::PHI) p++;
        return &f.f->code[p];
    }
    void unwind(uint64_t exc) {
        Thread &t = T();
        uint64_t ti = S->exc[exc].first;
        auto catches = [&](Frame &f, bool &cleanup) {
            const DInst *lp = padOf(f);
            cleanup = false;
            if (!lp) return false;
            auto *L = cast<LandingPadInst>(lp->I);
            cleanup = L->isCleanup();
            for (unsigned i = 0; i < L->getNumClauses(); i++) if (L->isCatch(i)) {
                int64_t adj;
                if (clauseMatch(ti, constVal(L->getClause(i)).c, adj)) return true;
            }
            return false;
        };
        bool any = false, cl;
        for (int i = (int) t.stack.size() - 1; i >= 0 && !any; i--) any = catches(t.stack[i], cl);
        if (!any) {
            GlobalVariable *g = tiGlobal(ti);
            die("uncaught", "uncaught exception of type " + demangle(g ? g->getName().str() : "?"));
        }
        while (!t.stack.empty()) {
            Frame &f = t.stack.back();
            bool c = catches(f, cl);
            if (c || cl) {
                t.pendingExc = exc;
                gotoBlock(f, f.f->code[f.pc].idx[1]);
                return;
            }
            popFrame(t);
        }
        throw EngineError{"unwind past the last frame"};
    }
    void doThrow(uint64_t obj, uint64_t ti, uint64_t dtor) {
        S->exc[obj] = {ti, dtor};
        unwind(obj);
    }
    // ---------------------------------------------------------------------------------------- calls
    void finishCall(Frame &f, const DInst &d) { // builtin done: advance
        if (d.opc == Instruction::Invoke) gotoBlock(f, d.idx[0]);
        else f.pc++;
    }
    Expr *symAdd(Expr *a, Expr *b) { return mkBin(K_ADD, a, b); }

    void execCall(Frame &f, const DInst &d) {
        unsigned nargs = cast<CallBase>(d.I)->arg_size();
        Function *callee = d.callee;
        int b = d.intr;
        if (!callee) {
            if (cast<CallBase>(d.I)->isInlineAsm()) { finishCall(f, d); return; }
            Val fp = get(f, d.ops.back());
            uint64_t a;
            if (isC(fp)) a = fp.c;
            else a = concretize(fp, 64);
            auto it = addrFunc.find(a);
            if (it == addrFunc.end()) die("memory", "call through invalid function pointer: " + describeAddr(a));
            callee = redirect(it->second);
            b = builtinOf(callee);
        }
        std::vector<Val> args(nargs);
        for (unsigned i = 0; i < nargs; i++) {
            args[i] = get(f, d.ops[i]);
            if (args[i].e && i >= callee->arg_size() && d.ops[i].w < 64) args[i] = VE(mkZExt(args[i].e, 64));
        }
        if (b >= 0) { builtin(f, d, callee, (Intr) b, args); return; }
        int ret = d.dst;
        // pc stays at the call; advanced on return
        pushFrame(T(), callee, args, ret);
    }
    void doReturn(const Val *v) {
        Thread &t = T();
        int slot = t.stack.back().retSlot;
        bool root = t.stack.size() == 1;
        popFrame(t);
        if (root) {
            if (t.qpos < t.queue.size()) { pushFrame(t, t.queue[t.qpos++], {}, -1); return; }
            t.done = true;
            if (S->cur == 0) throw PathEnd{"done"};
            pickNext();
            return;
        }
        Frame &f = t.stack.back();
        const DInst &d = f.f->code[f.pc];
        if (slot >= 0 && v) f.regs[slot] = *v;
        finishCall(f, d);
    }
    Val mkAgg(std::initializer_list<Val> l) { Val r; r.agg = new std::vector<Val>(l); return r; }

    void builtin(Frame &f, const DInst &d, Function *callee, Intr b, std::vector<Val> &a) {
        unsigned w = d.w, ow = d.ops.empty() ? 0 : d.ops[0].w;
        auto E = [&](int i) { return toE(a[i], d.ops[i].w); };
        auto ret = [&](const Val &v) { set(f, d, v); finishCall(f, d); };
        auto bin = [&](Kind k) { return mkBin(k, E(0), E(1)); };
        switch (b) {
            case I_IGN: finishCall(f, d); return;
            case I_ZERO: ret(VC(0)); return;
            case I_EXPECT: case I_TLSADDR: ret(a[0]); return;
            case I_ISCONST: ret(VC(0)); return;
            case I_OBJSIZE: ret(VC(~0ull & m64(w))); return;
            case I_STACKSAVE: ret(VC(0)); return;
            case I_VASTART: {
                // System V va_list with both register areas used up: every argument comes from the overflow area
                uint64_t va = concretize(a[0], 64);
                const DInst *call = nullptr;
                uint64_t area = alloc(S->mem, f.varargs.size() * 8 + 8, O_STACK, "varargs", true, S->id);
                f.allocas.push_back(area);
                for (size_t i = 0; i < f.varargs.size(); i++) store(VC(area + 8 * i), f.varargs[i], 64);
                (void) call;
                store(VC(va), VC(48), 32); store(VC(va + 4), VC(176), 32);
                store(VC(va + 8), VC(area), 64); store(VC(va + 16), VC(area), 64);
                finishCall(f, d);
                return;
            }
            case I_TRAP: die("trap", "trap instruction reached");
            case I_ABORT: die("abort", "abort() called");
            case I_TERMINATE: die("terminate", "std::terminate() called");
            case I_PUREVIRT: die("abort", "pure virtual function called");
            case I_MEMCPY: case I_MEMMOVE: {
                uint64_t n = concretize(a[2], 64);
                if (n) {
                    uint64_t dst = concretize(a[0], 64), src = concretize(a[1], 64);
                    copyBytes(dst, src, n, b == I_MEMCPY ? "memcpy" : "memmove");
                }
                if (d.dst >= 0) set(f, d, a[0]);
                finishCall(f, d);
                return;
            }
            case I_MEMSET: {
                uint64_t n = concretize(a[2], 64);
                if (n) {
                    uint64_t dst = concretize(a[0], 64);
                    Ref r = resolve(VC(dst), n, true, "memset");
                    Obj *o = wobj(r.base);
                    Expr *by = a[1].e ? mkExtract(a[1].e, 0, 8) : nullptr;
                    if (by && by->isConst()) { a[1] = VC((uint64_t) by->v); by = nullptr; }
                    for (uint64_t i = 0; i < n; i++) {
                        if (by) setByte(o, r.off + i, by);
                        else { o->conc[r.off + i] = (uint8_t) a[1].c; if (!o->sym.empty()) o->sym[r.off + i] = nullptr; }
                    }
                }
                if (d.dst >= 0) set(f, d, a[0]);
                finishCall(f, d);
                return;
            }
            case I_MALLOC: case I_NEW: case I_NEWARR: {
                uint64_t n = concretize(a[0], 64);
                ret(VC(alloc(S->mem, n, b == I_MALLOC ? O_HEAP : b == I_NEW ? O_NEW : O_NEWARR, "", false, S->id)));
                return;
            }
            case I_CALLOC: {
                uint64_t n = concretize(a[0], 64) * concretize(a[1], 64);
                ret(VC(alloc(S->mem, n, O_HEAP, "", true, S->id)));
                return;
            }
            case I_REALLOC: {
                uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64);
                uint64_t q = alloc(S->mem, n, O_HEAP, "", false, S->id);
                if (p) {
                    Obj *o = robj(p);
                    if (!o || o->freed || p != slotAddr(p >> SLOT_SHIFT)) die("memory", "realloc of invalid pointer");
                    copyBytes(q, p, std::min(n, o->size), "realloc");
                    release(S->mem, p);
                }
                ret(VC(q));
                return;
            }
            case I_FREE: case I_DEL: case I_DELARR: {
                uint64_t p = concretize(a[0], 64);
                if (p) {
                    Obj *o = p >= SLOT ? robj(p) : nullptr;
                    ObjKind want = b == I_FREE ? O_HEAP : b == I_DEL ? O_NEW : O_NEWARR;
                    if (!o || p != slotAddr(p >> SLOT_SHIFT) || (o->kind != O_HEAP && o->kind != O_NEW && o->kind != O_NEWARR))
                        die("memory", "free of invalid pointer: " + describeAddr(p));
                    if (o->freed) die("memory", "double free");
                    if (o->kind != want) die("memory", "mismatched allocation and deallocation functions");
                    release(S->mem, p);
                }
                finishCall(f, d);
                return;
            }
            case I_MEMCMP: {
                uint64_t n = concretize(a[2], 64);
                Expr *res = mkConst(0, 32);
                if (n) {
                    uint64_t p = concretize(a[0], 64), q = concretize(a[1], 64);
                    resolve(VC(p), n, false, "memcmp"); resolve(VC(q), n, false, "memcmp");
                    for (uint64_t i = n; i-- > 0;) {
                        Expr *x = toE(load(VC(p + i), 1), 8), *y = toE(load(VC(q + i), 1), 8);
                        res = mkIte(mkEq(x, y), res, mkIte(mkBin(K_ULT, x, y), mkConst(~(u128) 0, 32), mkConst(1, 32)));
                    }
                }
                ret(VE(res));
                return;
            }
            case I_STRLEN: {
                uint64_t p = concretize(a[0], 64), n = 0;
                while (true) {
                    Val v = load(VC(p + n), 1);
                    bool z = v.e ? branch(mkEq(v.e, mkConst(0, 8))) : v.c == 0;
                    if (z) break;
                    n++;
                }
                ret(VC(n));
                return;
            }
            case I_MEMCHR: {
                uint64_t p = concretize(a[0], 64), n = concretize(a[2], 64), i = 0;
                Expr *c = mkExtract(E(1), 0, 8);
                for (; i < n; i++) {
                    Val v = load(VC(p + i), 1);
                    if (branch(mkEq(toE(v, 8), c))) break;
                }
                ret(VC(i < n ? p + i : 0));
                return;
            }
            // ---- harness interface
            case I_SYMBOLIC: {
                uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64);
                std::string nm = readStr(concretize(a[2], 64));
                if (!n) { finishCall(f, d); return; }
                Ref r = resolve(VC(p), n, true, "hzs_symbolic");
                Obj *o = wobj(r.base);
                if (n <= 8) {
                    Expr *v = freshVar(8 * n);
                    S->inputs.push_back({nm, v->p, (unsigned) n, false, 0});
                    storeAt(o, r.off, VE(v), n);
                } else for (uint64_t i = 0; i < n; i++) {
                    Expr *v = freshVar(8);
                    S->inputs.push_back({nm + "[" + std::to_string(i) + "]", v->p, 1, false, 0});
                    setByte(o, r.off + i, v);
                }
                finishCall(f, d);
                return;
            }
            case I_ASSUME: {
                Expr *c = mkNot(mkEq(E(0), mkConst(0, ow)));
                assume(c);
                finishCall(f, d);
                return;
            }
            case I_CHECK: {
                Expr *c = mkNot(mkEq(E(0), mkConst(0, ow)));
                std::string msg = readStr(concretize(a[1], 64));
                checks++;
                if (c->isConst()) {
                    checksConst++;
                    if (!c->v) die("check", msg);
                } else {
                    ModelP m;
                    Expr *n = mkNot(c);
                    useQuick = false;      // assertions are decided by the solver
                    SatResult r = feasible(n, &m);
                    useQuick = true;
                    if (r == R_UNKNOWN) incomplete["solver-timeout"]++;
                    else if (r == R_UNSAT) checksProved++;
                    else {
                        report("check", msg, m);
                        ModelP m2;
                        if (!mayBeTrue(c, &m2)) throw PathEnd{"violation"};
                        S->model = m2;
                        addPC(c);
                    }
                }
                finishCall(f, d);
                return;
            }
            case I_FAIL: die("check", readStr(concretize(a[0], 64)));
            case I_BOUND: throw PathEnd{"bound:" + readStr(concretize(a[0], 64))};
            case I_EXIT: throw PathEnd{"done"};
            case I_CHOOSE: {
                uint64_t n = concretize(a[0], 64);
                std::string nm = readStr(concretize(a[1], 64));
                if (n == 0) throw PathEnd{"done"};
                finishCall(f, d);            // advance before forking: the copies continue after the call
                for (uint64_t k = n; k-- > 1;) {
                    State *s = forkState();
                    Frame &nf = s->threads[s->cur].stack.back();
                    if (d.dst >= 0) nf.regs[d.dst] = VC(k);
                    recordChoice(s, nm, k);
                }
                if (d.dst >= 0) F().regs[d.dst] = VC(0);
                recordChoice(S, nm, 0);
                return;
            }
            case I_OBSERVE: {
                S->obs.push_back({readStr(concretize(a[0], 64)), E(1)});
                finishCall(f, d);
                return;
            }
            case I_REACH: reach[readStr(concretize(a[0], 64))]++; finishCall(f, d); return;
            case I_NOTE: notes.insert(readStr(concretize(a[0], 64))); finishCall(f, d); return;
            case I_PARAM: {
                std::string nm = readStr(concretize(a[0], 64));
                auto it = params.find(nm);
                ret(it == params.end() ? a[1] : VC(strtoull(it->second.c_str(), nullptr, 0)));
                return;
            }
            case I_CONCRETIZE: { uint64_t v = concretize(a[0], ow); ret(VC(v)); return; }
            case I_ISSYM: ret(VC(a[0].e != nullptr && !a[0].e->isConst())); return;
            case I_PREDICT: { // two-way fork on a condition (returns 0/1 concretely)
                bool t = branch(mkNot(mkEq(E(0), mkConst(0, ow))));
                ret(VC(t));
                return;
            }
            case I_LIVE: {
                uint64_t n = 0;
                for (auto &p: S->mem.pages) if (p) for (auto &o: p->o) if (o && !o->freed && (o->kind == O_HEAP || o->kind == O_NEW || o->kind == O_NEWARR)) n++;
                ret(VC(n));
                return;
            }
            case I_OBJSIZEQ: {
                uint64_t p = concretize(a[0], 64);
                Obj *o = p >= SLOT ? robj(p) : nullptr;
                bool heap = o && p == slotAddr(p >> SLOT_SHIFT) && (o->kind == O_HEAP || o->kind == O_NEW || o->kind == O_NEWARR);
                if (heap && o->freed) die("memory", "use of freed heap object");
                ret(VC(heap ? o->size : ~0ull));
                return;
            }
            // ---- threads
            case I_THREAD: {
                uint64_t fn = concretize(a[0], 64);
                auto it = addrFunc.find(fn);
                if (it == addrFunc.end()) die("memory", "thread with invalid entry point");
                Thread t;
                S->threads.push_back(std::move(t));
                pushFrame(S->threads.back(), it->second, {a[1]}, -1);
                // threads vector may have moved
                Frame &f2 = F();
                set(f2, d, VC(S->threads.size() - 1));
                finishCall(f2, d);
                return;
            }
            case I_WAIT: {
                uint64_t k = concretize(a[0], 64);
                finishCall(f, d);
                T().waitOn = k;
                pickNext();
                return;
            }
            case I_WAKE: {
                uint64_t k = concretize(a[0], 64);
                for (auto &t: S->threads) if (t.waitOn == k) t.waitOn = 0;
                finishCall(f, d);
                return;
            }
            case I_SCHED: finishCall(f, d); schedPoint(); return;
            case I_SELF: ret(VC(S->cur)); return;
            // ---- exceptions
            case I_ALLOCEXC: ret(VC(alloc(S->mem, concretize(a[0], 64), O_EXC, "exception", false, S->id))); return;
            case I_FREEEXC: finishCall(f, d); return;
            case I_THROW: doThrow(concretize(a[0], 64), concretize(a[1], 64), concretize(a[2], 64)); return;
            case I_BEGINCATCH: {
                uint64_t x = concretize(a[0], 64);
                T().caught.push_back(x);
                ret(VC(x + (uint64_t) S->excRef[x]));
                return;
            }
            case I_GETEXCPTR: { uint64_t x = concretize(a[0], 64); ret(VC(x + (uint64_t) S->excRef[x])); return; }
            case I_ENDCATCH: if (!T().caught.empty()) T().caught.pop_back(); finishCall(f, d); return;
            case I_RETHROW: {
                if (T().caught.empty()) die("terminate", "rethrow without active exception");
                unwind(T().caught.back());
                return;
            }
            case I_RESUME: unwind(concretize(a[0], 64)); return;
            case I_TYPEID: ret(VC(typeId(a[0].c))); return;
            case I_UNCAUGHT: ret(VC(0)); return;
            case I_GUARDACQ: {
                Val v = load(a[0], 1);
                ret(VC(v.c ? 0 : 1));
                return;
            }
            case I_GUARDREL: store(a[0], VC(1), 8); finishCall(f, d); return;
            // ---- arithmetic intrinsics
            case I_UMIN: ret(VE(mkIte(bin(K_ULT), E(0), E(1)))); return;
            case I_UMAX: ret(VE(mkIte(bin(K_ULT), E(1), E(0)))); return;
            case I_SMIN: ret(VE(mkIte(bin(K_SLT), E(0), E(1)))); return;
            case I_SMAX: ret(VE(mkIte(bin(K_SLT), E(1), E(0)))); return;
            case I_ABS: { Expr *x = E(0); ret(VE(mkIte(mkBin(K_SLT, x, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), x), x))); return; }
            case I_CTLZ: { Expr *x = E(0), *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); ret(VE(r)); return; }
            case I_CTTZ: { Expr *x = E(0), *r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); ret(VE(r)); return; }
            case I_CTPOP: { Expr *x = E(0), *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(x, i, 1), w)); ret(VE(r)); return; }
            case I_BSWAP: { Expr *x = E(0), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *y = mkExtract(x, i, 8); r = r ? mkConcat(r, y) : y; } ret(VE(r)); return; }
            case I_BITREV: { Expr *x = E(0), *r = nullptr; for (unsigned i = 0; i < w; i++) { Expr *y = mkExtract(x, i, 1); r = r ? mkConcat(r, y) : y; } ret(VE(r)); return; }
            case I_FSHL: case I_FSHR: {
                Expr *hi = E(0), *lo = E(1), *s = mkBin(K_UREM, E(2), mkConst(w, w));
                Expr *inv = mkBin(K_SUB, mkConst(w, w), s);
                Expr *r = b == I_FSHL ? mkBin(K_OR, mkBin(K_SHL, hi, s), mkBin(K_LSHR, lo, inv)) : mkBin(K_OR, mkBin(K_SHL, hi, inv), mkBin(K_LSHR, lo, s));
                ret(VE(r));
                return;
            }
            case I_USUBSAT: { ret(VE(mkIte(bin(K_ULT), mkConst(0, ow), bin(K_SUB)))); return; }
            case I_UADDSAT: { Expr *s = bin(K_ADD); ret(VE(mkIte(mkBin(K_ULT, s, E(0)), mkConst(maskw(ow), ow), s))); return; }
            case I_SADDSAT: case I_SSUBSAT: {
                Expr *x = mkSExt(E(0), ow + 1), *y = mkSExt(E(1), ow + 1), *r = mkBin(b == I_SADDSAT ? K_ADD : K_SUB, x, y);
                uint64_t mx = maskw(ow - 1);
                Expr *hi = mkSExt(mkConst(mx, ow), ow + 1), *lo = mkSExt(mkConst(mx + 1, ow), ow + 1);
                ret(VE(mkIte(mkBin(K_SLT, hi, r), mkConst(mx, ow), mkIte(mkBin(K_SLT, r, lo), mkConst(mx + 1, ow), mkExtract(r, 0, ow)))));
                return;
            }
            case I_FMATH1: case I_FMATH2: case I_FMA: {
                std::string n = callee->getName().str();
                if (n.rfind("llvm.", 0) == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); } else if (w == 32 && n.back() == 'f') n.pop_back();
                double x = fpGet(a[0], w), y = b == I_FMATH1 ? 0 : fpGet(a[1], w), r = 0;
                if (b == I_FMA) { double z = fpGet(a[2], w); ret(VC(fpPut(n == "fma" ? std::fma(x, y, z) : w == 32 ? (double) ((float) ((float) x * (float) y) + (float) z) : x * y + z, w))); return; }
                if (n == "fabs") r = std::fabs(x); else if (n == "floor") r = std::floor(x); else if (n == "ceil") r = std::ceil(x); else if (n == "trunc") r = std::trunc(x);
                else if (n == "round") r = std::round(x); else if (n == "rint") r = std::rint(x); else if (n == "nearbyint") r = std::nearbyint(x); else if (n == "sqrt") r = std::sqrt(x);
                else if (n == "exp") r = std::exp(x); else if (n == "exp2") r = std::exp2(x); else if (n == "log") r = std::log(x); else if (n == "log2") r = std::log2(x); else if (n == "log10") r = std::log10(x);
                else if (n == "sin") r = std::sin(x); else if (n == "cos") r = std::cos(x); else if (n == "log1p") r = std::log1p(x); else if (n == "expm1") r = std::expm1(x);
                else if (n == "pow") r = std::pow(x, y); else if (n == "fmin" || n == "minnum") r = std::fmin(x, y); else if (n == "fmax" || n == "maxnum") r = std::fmax(x, y); else if (n == "fmod") r = std::fmod(x, y); else if (n == "copysign") r = std::copysign(x, y);
                else throw EngineError{"floating point function " + n};
                ret(VC(fpPut(r, w)));
                return;
            }
            case I_UADDO: { Expr *s = bin(K_ADD); ret(mkAgg({VE(s), VE(mkBin(K_ULT, s, E(0)))})); return; }
            case I_USUBO: { Expr *s = bin(K_SUB); ret(mkAgg({VE(s), VE(bin(K_ULT))})); return; }
            case I_UMULO: {
                Expr *p = mkBin(K_MUL, mkZExt(E(0), 2 * ow), mkZExt(E(1), 2 * ow));
                ret(mkAgg({VE(mkExtract(p, 0, ow)), VE(mkNot(mkEq(mkExtract(p, ow, ow), mkConst(0, ow))))}));
                return;
            }
            case I_SADDO: { Expr *x = E(0), *y = E(1), *s = mkBin(K_ADD, x, y); Expr *p = mkSExt(s, ow + 1), *q = mkBin(K_ADD, mkSExt(x, ow + 1), mkSExt(y, ow + 1)); ret(mkAgg({VE(s), VE(mkNot(mkEq(p, q)))})); return; }
            case I_SSUBO: { Expr *x = E(0), *y = E(1), *s = mkBin(K_SUB, x, y); Expr *p = mkSExt(s, ow + 1), *q = mkBin(K_SUB, mkSExt(x, ow + 1), mkSExt(y, ow + 1)); ret(mkAgg({VE(s), VE(mkNot(mkEq(p, q)))})); return; }
            case I_SMULO: { Expr *p = mkBin(K_MUL, mkSExt(E(0), 2 * ow), mkSExt(E(1), 2 * ow)); Expr *l = mkExtract(p, 0, ow); ret(mkAgg({VE(l), VE(mkNot(mkEq(mkSExt(l, 2 * ow), p)))})); return; }
            case I_UNSUPPORTED: default:
                throw EngineError{"call of unmodelled function " + demangle(callee->getName().str())};
        }
    }
    void assume(Expr *c) {
        if (c->isConst()) { if (!c->v) throw PathEnd{"assume"}; return; }
        ModelP m;
        SatResult r = feasible(c, &m);
        if (r == R_UNKNOWN) { incomplete["solver-timeout"]++; throw PathEnd{"assume"}; }
        if (r == R_UNSAT) throw PathEnd{"assume"};
        S->model = m;
        addPC(c);
    }
    // ---------------------------------------------------------------------------------------- one instruction
    static double asD(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
    static uint64_t fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
    static float asF(uint64_t x) { uint32_t y = (uint32_t) x; float d; memcpy(&d, &y, 4); return d; }
    static uint64_t fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
    double fpGet(const Val &v, unsigned w) { if (v.e) throw EngineError{"symbolic floating point"}; return w == 32 ? asF(v.c) : asD(v.c); }
    uint64_t fpPut(double d, unsigned w) { return w == 32 ? fromF((float) d) : fromD(d); }

    void step() {
        Frame &f = F();
        const DInst &d = f.f->code[f.pc];
        instrs++;
        if (++S->steps > maxSteps) {
            report("steplimit", "no end after " + std::to_string(maxSteps) + " instructions", nullptr);
            throw PathEnd{"steplimit"};
        }
        unsigned w = d.w;
        switch (d.opc) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
            case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
                Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
                if (a.agg || b.agg) { vecBin(f, d, a, b); return; }
                static const std::unordered_map<unsigned, Kind> km = {
                    {Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::And, K_AND}, {Instruction::Or, K_OR},
                    {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR},
                    {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}};
                bool isdiv = d.opc == Instruction::UDiv || d.opc == Instruction::SDiv || d.opc == Instruction::URem || d.opc == Instruction::SRem;
                if (isdiv) {
                    Expr *z = mkEq(toE(b, w), mkConst(0, w));
                    if (z->isConst()) { if (z->v) die("divzero", "division by zero"); }
                    else {
                        ModelP m;
                        SatResult r = feasible(z, &m);
                        if (r == R_UNKNOWN) incomplete["solver-timeout"]++;
                        if (r == R_SAT) {
                            report("divzero", "division by zero", m);
                            ModelP m2;
                            if (!mayBeTrue(mkNot(z), &m2)) throw PathEnd{"violation"};
                            S->model = m2;
                        }
                        addPC(mkNot(z));
                    }
                }
                if (!a.e && !b.e && w <= 64) {
                    uint64_t x = a.c, y = b.c, r;
                    switch (d.opc) {
                        case Instruction::Add: r = x + y; break;
                        case Instruction::Sub: r = x - y; break;
                        case Instruction::Mul: r = x * y; break;
                        case Instruction::And: r = x & y; break;
                        case Instruction::Or: r = x | y; break;
                        case Instruction::Xor: r = x ^ y; break;
                        default: r = (uint64_t) foldBin(km.at(d.opc), x, y, w);
                    }
                    f.regs[d.dst] = VC(r & m64(w));
                } else f.regs[d.dst] = VE(mkBin(km.at(d.opc), toE(a, w), toE(b, w)));
                f.pc++;
                return;
            }
            case Instruction::ICmp: {
                Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
                unsigned cw = d.ow;
                if (a.agg || b.agg) throw EngineError{"vector icmp"};
                if (!a.e && !b.e) {
                    uint64_t x = a.c, y = b.c;
                    int64_t sx = (int64_t) (x << (64 - cw)) >> (64 - cw), sy = (int64_t) (y << (64 - cw)) >> (64 - cw);
                    bool r = false;
                    switch (d.pred) {
                        case CmpInst::ICMP_EQ: r = x == y; break;
                        case CmpInst::ICMP_NE: r = x != y; break;
                        case CmpInst::ICMP_UGT: r = x > y; break;
                        case CmpInst::ICMP_UGE: r = x >= y; break;
                        case CmpInst::ICMP_ULT: r = x < y; break;
                        case CmpInst::ICMP_ULE: r = x <= y; break;
                        case CmpInst::ICMP_SGT: r = sx > sy; break;
                        case CmpInst::ICMP_SGE: r = sx >= sy; break;
                        case CmpInst::ICMP_SLT: r = sx < sy; break;
                        case CmpInst::ICMP_SLE: r = sx <= sy; break;
                    }
                    f.regs[d.dst] = VC(r);
                } else {
                    Expr *x = toE(a, cw), *y = toE(b, cw), *r = nullptr;
                    switch (d.pred) {
                        case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
                        case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
                        case CmpInst::ICMP_UGT: r = mkBin(K_ULT, y, x); break;
                        case CmpInst::ICMP_UGE: r = mkBin(K_ULE, y, x); break;
                        case CmpInst::ICMP_ULT: r = mkBin(K_ULT, x, y); break;
                        case CmpInst::ICMP_ULE: r = mkBin(K_ULE, x, y); break;
                        case CmpInst::ICMP_SGT: r = mkBin(K_SLT, y, x); break;
                        case CmpInst::ICMP_SGE: r = mkBin(K_SLE, y, x); break;
                        case CmpInst::ICMP_SLT: r = mkBin(K_SLT, x, y); break;
                        case CmpInst::ICMP_SLE: r = mkBin(K_SLE, x, y); break;
                    }
                    f.regs[d.dst] = VE(r);
                }
                f.pc++;
                return;
            }
            case Instruction::Trunc: { Val a = get(f, d.ops[0]); f.regs[d.dst] = a.e ? VE(mkExtract(a.e, 0, w)) : VC(a.c & m64(w)); f.pc++; return; }
            case Instruction::ZExt: { Val a = get(f, d.ops[0]); f.regs[d.dst] = a.e || w > 64 ? VE(mkZExt(toE(a, d.ow), w)) : a; if (w > 64 && !f.regs[d.dst].e) f.regs[d.dst].e = mkConst(f.regs[d.dst].c, w); f.pc++; return; }
            case Instruction::SExt: {
                Val a = get(f, d.ops[0]);
                if (a.e || w > 64) { f.regs[d.dst] = VE(mkSExt(toE(a, d.ow), w)); }
                else f.regs[d.dst] = VC((uint64_t) ((int64_t) (a.c << (64 - d.ow)) >> (64 - d.ow)) & m64(w));
                f.pc++;
                return;
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                Val a = get(f, d.ops[0]);
                if (w < d.ow) f.regs[d.dst] = a.e ? VE(mkExtract(a.e, 0, w)) : VC(a.c & m64(w));
                else f.regs[d.dst] = a.e ? VE(mkZExt(a.e, w)) : a;
                f.pc++;
                return;
            }
            case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: f.regs[d.dst] = get(f, d.ops[0]); f.pc++; return;
            case Instruction::Select: {
                Val c = get(f, d.ops[0]);
                if (c.agg) throw EngineError{"vector select"};
                if (!c.e) { f.regs[d.dst] = get(f, d.ops[c.c ? 1 : 2]); f.pc++; return; }
                Val a = get(f, d.ops[1]), b = get(f, d.ops[2]);
                if (a.agg || b.agg || d.ty->isFloatingPointTy()) {
                    bool t = branch(c.e);
                    f.regs[d.dst] = t ? a : b;
                } else f.regs[d.dst] = VE(mkIte(c.e, toE(a, w), toE(b, w)));
                f.pc++;
                return;
            }
            case Instruction::GetElementPtr: {
                Val p = get(f, d.ops[0]);
                if (p.agg) throw EngineError{"vector gep"};
                if (!p.e) {
                    bool conc = true;
                    uint64_t a = p.c + d.imm;
                    for (auto &g: d.gep) {
                        Val v = get(f, g.op);
                        if (v.e) { conc = false; break; }
                        int64_t iv = (int64_t) (v.c << (64 - g.w)) >> (64 - g.w);
                        a += (uint64_t) iv * g.stride;
                    }
                    if (conc) { f.regs[d.dst] = VC(a); f.pc++; return; }
                }
                Expr *off = mkConst(d.imm, 64);
                for (auto &g: d.gep) {
                    Val v = get(f, g.op);
                    Expr *e = g.w < 64 ? mkSExt(toE(v, g.w), 64) : mkExtract(toE(v, g.w), 0, 64);
                    off = mkBin(K_ADD, off, mkBin(K_MUL, e, mkConst(g.stride, 64)));
                }
                f.regs[d.dst] = VE(mkBin(K_ADD, off, toE(p, 64)));
                f.pc++;
                return;
            }
            case Instruction::Load: {
                Val p = get(f, d.ops[0]);
                if (!w) { // vector or aggregate load
                    f.regs[d.dst] = loadAgg(p, d.ty);
                    f.pc++;
                    return;
                }
                unsigned nb = (w + 7) / 8;
                Val v = load(p, nb);
                if (w % 8) v = v.e ? VE(mkExtract(v.e, 0, w)) : VC(v.c & m64(w));
                f.regs[d.dst] = v;
                f.pc++;
                return;
            }
            case Instruction::Store: {
                Val v = get(f, d.ops[0]), p = get(f, d.ops[1]);
                if (!d.ow) storeAgg(p, v, d.I->getOperand(0)->getType());
                else store(p, v, d.ow);
                f.pc++;
                return;
            }
            case Instruction::Alloca: {
                uint64_t n = concretize(get(f, d.ops[0]), d.ops[0].w);
                uint64_t a = alloc(S->mem, d.imm * n, O_STACK, "", false, S->id);
                f.allocas.push_back(a);
                f.regs[d.dst] = VC(a);
                f.pc++;
                return;
            }
            case Instruction::Br: {
                if (d.ops.empty()) { gotoBlock(f, d.idx[0]); return; }
                Val c = get(f, d.ops[0]);
                bool t = c.e ? branch(c.e) : (c.c & 1);
                gotoBlock(f, d.idx[t ? 0 : 1]);
                return;
            }
            case Instruction::Switch: {
                Val c = get(f, d.ops[0]);
                if (!c.e) {
                    unsigned tgt = d.idx[0];
                    for (size_t k = 0; k < d.swv.size(); k++) if (d.swv[k] == c.c) { tgt = d.idx[k + 1]; break; }
                    gotoBlock(f, tgt);
                    return;
                }
                // try the case the model selects, fork off the rest
                uint64_t v = (uint64_t) evalExpr(c.e, *S->model);
                // group cases by target
                unsigned tgt = d.idx[0];
                for (size_t k = 0; k < d.swv.size(); k++) if (d.swv[k] == v) tgt = d.idx[k + 1];
                Expr *cond;
                if (tgt == d.idx[0]) {
                    cond = mkTrue();
                    for (size_t k = 0; k < d.swv.size(); k++) if (d.idx[k + 1] != tgt) cond = mkAnd(cond, mkNot(mkEq(c.e, mkConst(d.swv[k], d.ow))));
                } else {
                    cond = mkConst(0, 1);
                    for (size_t k = 0; k < d.swv.size(); k++) if (d.idx[k + 1] == tgt) cond = mkOr(cond, mkEq(c.e, mkConst(d.swv[k], d.ow)));
                }
                branch(cond);
                gotoBlock(f, tgt);
                return;
            }
            case Instruction::Call: case Instruction::Invoke: execCall(f, d); return;
            case Instruction::Ret: {
                if (d.ops.empty()) doReturn(nullptr);
                else { Val v = get(f, d.ops[0]); doReturn(&v); }
                return;
            }
            case Instruction::Unreachable: die("unreachable", "control flow reaches undefined behaviour (unreachable)");
            case Instruction::Resume: {
                Val v = get(f, d.ops[0]);
                uint64_t x = (*v.agg)[0].c;
                // unwinding continues in the caller
                if (T().stack.size() == 1) { GlobalVariable *g = tiGlobal(S->exc[x].first); die("uncaught", "uncaught exception of type " + demangle(g ? g->getName().str() : "?")); }
                popFrame(T());
                unwind(x);
                return;
            }
            case Instruction::LandingPad: {
                auto *L = cast<LandingPadInst>(d.I);
                uint64_t x = T().pendingExc;
                uint64_t ti = S->exc[x].first;
                int sel = 0;
                for (unsigned i = 0; i < L->getNumClauses(); i++) if (L->isCatch(i)) {
                    uint64_t c = constVal(L->getClause(i)).c;
                    int64_t adj;
                    if (clauseMatch(ti, c, adj)) { sel = typeId(c); S->excRef[x] = (int) adj; break; }
                }
                f.regs[d.dst] = mkAgg({VC(x), VC((uint32_t) sel)});
                f.pc++;
                return;
            }
            case Instruction::ExtractValue: {
                Val v = get(f, d.ops[0]);
                for (unsigned i: d.idx) v = (*v.agg)[i];
                f.regs[d.dst] = v;
                f.pc++;
                return;
            }
            case Instruction::InsertValue: {
                Val v = get(f, d.ops[0]), n = get(f, d.ops[1]);
                f.regs[d.dst] = insertAgg(v, n, d.idx, 0);
                f.pc++;
                return;
            }
            case Instruction::ExtractElement: {
                Val v = get(f, d.ops[0]);
                uint64_t i = concretize(get(f, d.ops[1]), d.ops[1].w);
                f.regs[d.dst] = v.agg->at(i);
                f.pc++;
                return;
            }
            case Instruction::InsertElement: {
                Val v = get(f, d.ops[0]);
                uint64_t i = concretize(get(f, d.ops[2]), d.ops[2].w);
                f.regs[d.dst] = insertAgg(v, get(f, d.ops[1]), {(unsigned) i}, 0);
                f.pc++;
                return;
            }
            case Instruction::Fence: f.pc++; return;
            case Instruction::AtomicRMW: {
                auto *rm = cast<AtomicRMWInst>(d.I);
                Val p = get(f, d.ops[0]), v = get(f, d.ops[1]);
                Val old = load(p, w / 8);
                Expr *o = toE(old, w), *n = toE(v, w), *r = nullptr;
                switch (rm->getOperation()) {
                    case AtomicRMWInst::Xchg: r = n; break;
                    case AtomicRMWInst::Add: r = mkBin(K_ADD, o, n); break;
                    case AtomicRMWInst::Sub: r = mkBin(K_SUB, o, n); break;
                    case AtomicRMWInst::And: r = mkBin(K_AND, o, n); break;
                    case AtomicRMWInst::Or: r = mkBin(K_OR, o, n); break;
                    case AtomicRMWInst::Xor: r = mkBin(K_XOR, o, n); break;
                    default: throw EngineError{"atomicrmw operation"};
                }
                store(p, VE(r), w);
                f.regs[d.dst] = old;
                f.pc++;
                return;
            }
            case Instruction::AtomicCmpXchg: {
                Val p = get(f, d.ops[0]), cmp = get(f, d.ops[1]), nv = get(f, d.ops[2]);
                unsigned cw = d.ops[1].w;
                Val old = load(p, cw / 8);
                bool eq = branch(mkEq(toE(old, cw), toE(cmp, cw)));
                if (eq) store(p, nv, cw);
                f.regs[d.dst] = mkAgg({old, VC(eq)});
                f.pc++;
                return;
            }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                double a = fpGet(get(f, d.ops[0]), w), b = fpGet(get(f, d.ops[1]), w), r;
                switch (d.opc) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = fmod(a, b); }
                if (w == 32) { float fa = a, fb = b, fr; switch (d.opc) { case Instruction::FAdd: fr = fa + fb; break; case Instruction::FSub: fr = fa - fb; break; case Instruction::FMul: fr = fa * fb; break; case Instruction::FDiv: fr = fa / fb; break; default: fr = fmodf(fa, fb); } r = fr; }
                f.regs[d.dst] = VC(fpPut(r, w)); f.pc++; return;
            }
            case Instruction::FNeg: f.regs[d.dst] = VC(fpPut(-fpGet(get(f, d.ops[0]), w), w)); f.pc++; return;
            case Instruction::FCmp: {
                double a = fpGet(get(f, d.ops[0]), d.ow), b = fpGet(get(f, d.ops[1]), d.ow);
                bool un = a != a || b != b, r = false;
                unsigned p = d.pred;
                if (p & 8) r |= un;
                if (!un) { if ((p & 1) && a == b) r = true; if ((p & 2) && a > b) r = true; if ((p & 4) && a < b) r = true; }
                f.regs[d.dst] = VC(r); f.pc++; return;
            }
            case Instruction::UIToFP: { Val v = get(f, d.ops[0]); uint64_t c = concretize(v, d.ow); f.regs[d.dst] = VC(fpPut(w == 32 ? (double) (float) c : (double) c, w)); f.pc++; return; }
            case Instruction::SIToFP: { Val v = get(f, d.ops[0]); uint64_t c = concretize(v, d.ow); int64_t s = (int64_t) (c << (64 - d.ow)) >> (64 - d.ow); f.regs[d.dst] = VC(fpPut((double) s, w)); f.pc++; return; }
            case Instruction::FPToUI: f.regs[d.dst] = VC((uint64_t) fpGet(get(f, d.ops[0]), d.ow) & m64(w)); f.pc++; return;
            case Instruction::FPToSI: f.regs[d.dst] = VC((uint64_t) (int64_t) fpGet(get(f, d.ops[0]), d.ow) & m64(w)); f.pc++; return;
            case Instruction::FPExt: case Instruction::FPTrunc: f.regs[d.dst] = VC(fpPut(fpGet(get(f, d.ops[0]), d.ow), w)); f.pc++; return;
            default:
                throw EngineError{std::string("unsupported instruction ") + d.I->getOpcodeName() + " in " + demangle(f.f->name)};
        }
    }
    Val insertAgg(const Val &v, const Val &n, const std::vector<unsigned> &idx, unsigned k) {
        auto *nv = new std::vector<Val>(*v.agg);
        if (k + 1 == idx.size()) (*nv)[idx[k]] = n;
        else (*nv)[idx[k]] = insertAgg((*nv)[idx[k]], n, idx, k + 1);
        Val r; r.agg = nv;
        return r;
    }
    void vecBin(Frame &f, const DInst &d, const Val &a, const Val &b) {
        auto *vt = dyn_cast<FixedVectorType>(d.ty);
        if (!vt) throw EngineError{"vector operation"};
        unsigned ew = bitsOf(vt->getElementType());
        auto *nv = new std::vector<Val>;
        Kind k;
        switch (d.opc) {
            case Instruction::Add: k = K_ADD; break; case Instruction::Sub: k = K_SUB; break; case Instruction::Mul: k = K_MUL; break;
            case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break;
            case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; case Instruction::AShr: k = K_ASHR; break;
            default: throw EngineError{"vector operation"};
        }
        for (unsigned i = 0; i < a.agg->size(); i++) nv->push_back(VE(mkBin(k, toE((*a.agg)[i], ew), toE((*b.agg)[i], ew))));
        Val r; r.agg = nv;
        f.regs[d.dst] = r;
        f.pc++;
    }
    Val loadAgg(const Val &p, Type *t) {
        if (unsigned b = bitsOf(t)) { Val v = load(p, (b + 7) / 8); if (b % 8) v = v.e ? VE(mkExtract(v.e, 0, b)) : VC(v.c & m64(b)); return v; }
        auto *nv = new std::vector<Val>;
        auto at = [&](uint64_t off) { return p.e ? VE(mkBin(K_ADD, p.e, mkConst(off, 64))) : VC(p.c + off); };
        if (auto *st = dyn_cast<StructType>(t)) {
            const StructLayout *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) nv->push_back(loadAgg(at(sl->getElementOffset(i)), st->getElementType(i)));
        } else {
            Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(), es = DL->getTypeAllocSize(et);
            for (uint64_t i = 0; i < n; i++) nv->push_back(loadAgg(at(i * es), et));
        }
        Val r; r.agg = nv;
        return r;
    }
    void storeAgg(const Val &p, const Val &v, Type *t) {
        if (unsigned b = bitsOf(t)) { store(p, v, b); return; }
        auto at = [&](uint64_t off) { return p.e ? VE(mkBin(K_ADD, p.e, mkConst(off, 64))) : VC(p.c + off); };
        if (auto *st = dyn_cast<StructType>(t)) {
            const StructLayout *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) storeAgg(at(sl->getElementOffset(i)), (*v.agg)[i], st->getElementType(i));
        } else {
            Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(), es = DL->getTypeAllocSize(et);
            for (uint64_t i = 0; i < n; i++) storeAgg(at(i * es), (*v.agg)[i], et);
        }
    }

    // ---------------------------------------------------------------------------------------- constants, globals
    unsigned bitsOf(Type *t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isPointerTy()) return 64;
        if (t->isDoubleTy()) return 64;
        if (t->isFloatTy()) return 32;
        return 0;
    }
    Val zeroOf(Type *t) {
        if (t->isAggregateType() || isa<FixedVectorType>(t)) {
            auto *v = new std::vector<Val>;
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; i++)
                v->push_back(zeroOf(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType()));
            Val r; r.agg = v; return r;
        }
        return VC(0);
    }
    uint64_t globalAddr(const GlobalValue *g) {
        if (auto *al = dyn_cast<GlobalAlias>(g)) return globalAddr(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
        auto it = gaddr.find(g);
        if (it == gaddr.end()) throw EngineError{"unknown global " + g->getName().str()};
        return it->second;
    }
    Val constVal(const Constant *c) {
        Type *t = c->getType();
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            unsigned w = ci->getBitWidth();
            if (w <= 64) return VC(ci->getZExtValue());
            if (w > 128) throw EngineError{"integer wider than 128 bits"};
            u128 v = ci->getValue().getRawData()[0] | ((u128) (ci->getValue().getNumWords() > 1 ? ci->getValue().getRawData()[1] : 0) << 64);
            Val r; r.e = mkConst(v, w); return r;
        }
        if (isa<ConstantPointerNull>(c)) return VC(0);
        if (isa<UndefValue>(c)) return zeroOf(t);
        if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
        if (auto *fp = dyn_cast<ConstantFP>(c)) return VC(fp->getValueAPF().bitcastToAPInt().getZExtValue());
        if (auto *g = dyn_cast<GlobalValue>(c)) return VC(globalAddr(g));
        if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
            auto *v = new std::vector<Val>;
            for (unsigned i = 0; i < ca->getNumOperands(); i++) v->push_back(constVal(ca->getOperand(i)));
            Val r; r.agg = v; return r;
        }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            auto *v = new std::vector<Val>;
            for (unsigned i = 0; i < cd->getNumElements(); i++) v->push_back(constVal(cd->getElementAsConstant(i)));
            Val r; r.agg = v; return r;
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
                case Instruction::GetElementPtr: {
                    APInt off(64, 0);
                    if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw EngineError{"non-constant gep constant"};
                    return VC(constVal(ce->getOperand(0)).c + off.getZExtValue());
                }
                case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast: {
                    unsigned w = bitsOf(t);
                    return VC(constVal(ce->getOperand(0)).c & m64(w));
                }
                case Instruction::Sub: return VC((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & m64(bitsOf(t)));
                case Instruction::Add: return VC((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & m64(bitsOf(t)));
                case Instruction::ICmp: {
                    uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
                    if (ce->getPredicate() == CmpInst::ICMP_EQ) return VC(a == b);
                    if (ce->getPredicate() == CmpInst::ICMP_NE) return VC(a != b);
                    break;
                }
                default: break;
            }
            throw EngineError{std::string("unsupported constant expression ") + ce->getOpcodeName()};
        }
        throw EngineError{"unsupported constant"};
    }
    void initMemory(Obj *o, uint64_t off, const Constant *c) {
        Type *t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            StringRef r = cd->getRawDataValues();
            memcpy(o->conc.data() + off, r.data(), r.size());
            return;
        }
        if (t->isStructTy()) {
            const StructLayout *sl = DL->getStructLayout(cast<StructType>(t));
            for (unsigned i = 0; i < c->getNumOperands(); i++) initMemory(o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i)));
            return;
        }
        if (t->isArrayTy() || isa<FixedVectorType>(t)) {
            uint64_t es = DL->getTypeAllocSize(t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType());
            for (unsigned i = 0; i < c->getNumOperands(); i++) initMemory(o, off + i * es, cast<Constant>(c->getOperand(i)));
            return;
        }
        Val v = constVal(c);
        uint64_t sz = DL->getTypeStoreSize(t);
        if (v.e) { u128 x = v.e->v; memcpy(o->conc.data() + off, &x, sz); }
        else memcpy(o->conc.data() + off, &v.c, sz);
    }
    std::unordered_map<uint64_t, GlobalVariable *> tlsVars;
    uint64_t tlsAddr(uint64_t a) {           // the current thread's instance of a thread-local variable
        auto g = tlsVars.find(a);
        if (g == tlsVars.end() || S->cur == 0) return a;
        auto i = S->tls.find({S->cur, a});
        if (i != S->tls.end()) return i->second;
        uint64_t n = alloc(S->mem, DL->getTypeAllocSize(g->second->getValueType()), O_GLOBAL, strdup(g->second->getName().str().c_str()), true, S->id);
        if (g->second->hasInitializer()) initMemory(wobj(n), 0, g->second->getInitializer());
        S->tls[{S->cur, a}] = n;
        return n;
    }
    void setupGlobals() {
        for (Function &f: *M) {
            uint64_t s = initMem.next++;
            auto o = std::make_shared<Obj>();
            o->size = 16; o->kind = O_FUNC; o->name = strdup(f.getName().str().c_str()); o->conc.assign(16, 0); o->ro = true;
            *initMem.wslot(s) = o;
            uint64_t a = slotAddr(s);
            gaddr[&f] = a;
            addrFunc[a] = &f;
        }
        for (GlobalVariable &g: M->globals()) {
            uint64_t sz = DL->getTypeAllocSize(g.getValueType());
            if (g.isDeclaration() && sz < 256) sz = 256;
            uint64_t a = alloc(initMem, sz, O_GLOBAL, strdup(g.getName().str().c_str()), true, 0);
            gaddr[&g] = a;
            if (g.isThreadLocal()) tlsVars[a] = &g;
        }
        for (GlobalVariable &g: M->globals()) {
            if (!g.hasInitializer()) continue;
            uint64_t a = gaddr[&g];
            Obj *o = initMem.slot(a >> SLOT_SHIFT)->get();
            initMemory(o, 0, g.getInitializer());
            if (g.isConstant()) o->ro = true;
        }
    }
    std::vector<Function *> ctors() {
        std::vector<std::pair<uint64_t, Function *>> v;
        if (auto *g = M->getNamedGlobal("llvm.global_ctors")) if (auto *a = dyn_cast<ConstantArray>(g->getInitializer()))
            for (unsigned i = 0; i < a->getNumOperands(); i++) {
                auto *s = cast<ConstantStruct>(a->getOperand(i));
                if (auto *f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()))
                    v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f});
            }
        std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
        std::vector<Function *> r;
        for (auto &x: v) r.push_back(x.second);
        return r;
    }
    // ---------------------------------------------------------------------------------------- type information
    std::string tiName(uint64_t a) {
        for (auto &x: gaddr) if (x.second == a) return x.first->getName().str();
        return "?";
    }
    std::unordered_map<uint64_t, GlobalVariable *> tiByAddr;
    GlobalVariable *tiGlobal(uint64_t a) {
        if (tiByAddr.empty()) for (GlobalVariable &g: M->globals()) tiByAddr[gaddr[&g]] = &g;
        auto it = tiByAddr.find(a);
        return it == tiByAddr.end() ? nullptr : it->second;
    }
    // does a thrown object of type `from` match a handler of type `to`?  `adj` receives the pointer adjustment
    bool tiMatch(GlobalVariable *from, GlobalVariable *to, int64_t &adj, int depth = 0) {
        if (from == to || from->getName() == to->getName()) return true;
        if (!from->hasInitializer() || depth > 16) return false;
        auto *cs = dyn_cast<ConstantStruct>(from->getInitializer());
        if (!cs || cs->getNumOperands() < 3) return false;
        std::string vt;
        const Value *v = cs->getOperand(0)->stripInBoundsConstantOffsets();
        if (v->hasName()) vt = v->getName().str();
        if (vt == "_ZTVN10__cxxabiv120__si_class_type_infoE") {
            auto *b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts());
            return b && tiMatch(b, to, adj, depth + 1);
        }
        if (vt == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
            for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
                auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts());
                auto *fl = dyn_cast<ConstantInt>(cs->getOperand(i + 1));
                if (!b || !fl) continue;
                int64_t f = fl->getSExtValue();
                if (!(f & 2)) continue;                  // not a public base
                int64_t a2 = 0;
                if (tiMatch(b, to, a2, depth + 1)) { if (!(f & 1)) adj += (f >> 8) + a2; return true; }
            }
        }
        return false;
    }
    // ---------------------------------------------------------------------------------------- decoding
    DFunc *getDF(Function *F) {
        auto it = dfuncs.find(F);
        if (it != dfuncs.end()) return it->second.get();
        auto d = std::make_unique<DFunc>();
        d->F = F; d->name = F->getName().str();
        if (auto *sp = F->getSubprogram()) {
            d->file = sp->getFilename().str();
            if (!d->file.empty() && d->file[0] != '/') d->file = sp->getDirectory().str() + "/" + d->file;
            d->inRepo = d->file.rfind(repoDir + "/", 0) == 0;
        }
        DFunc *r = d.get();
        dfuncs[F] = std::move(d);
        if (!F->isDeclaration()) decode(*r);
        return r;
    }
    void decode(DFunc &d) {
        std::unordered_map<const Value *, int> slots;
        std::unordered_map<const BasicBlock *, unsigned> bbi;
        int n = 0;
        for (auto &a: d.F->args()) slots[&a] = n++;
        unsigned nb = 0;
        for (auto &b: *d.F) {
            bbi[&b] = nb++;
            for (auto &i: b) if (!i.getType()->isVoidTy()) slots[&i] = n++;
        }
        d.nslots = n;
        auto op = [&](const Value *v) {
            Opnd o;
            o.w = (uint8_t) std::min<unsigned>(bitsOf(v->getType()), 255);
            if (auto *c = dyn_cast<Constant>(v)) {
                o.slot = -1; o.cst = constVal(c);
                if (!tlsVars.empty() && c->getType()->isPointerTy()) if (auto *g = dyn_cast<GlobalVariable>(c->stripInBoundsOffsets())) if (g->isThreadLocal()) o.tls = gaddr[g];
            }
            else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) { o.slot = -1; o.cst = VC(0); }
            else { auto it = slots.find(v); if (it == slots.end()) throw EngineError{"operand without slot"}; o.slot = it->second; }
            return o;
        };
        auto enc = [&](DISubprogram *sp) {
            if (!sp) return;
            std::string file = sp->getFilename().str();
            if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
            if (file.rfind(repoDir + "/", 0) != 0) return;
            std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
            encoded.insert(file.substr(repoDir.size() + 1) + ": " + nm);
        };
        enc(d.F->getSubprogram());
        for (auto &b: *d.F) for (auto &i: b) for (DILocation *l = i.getDebugLoc().get(); l; l = l->getInlinedAt()) if (auto *sc = l->getScope()) enc(sc->getSubprogram());
        for (auto &b: *d.F) {
            d.blockStart.push_back(d.code.size());
            for (auto &i: b) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                DInst x;
                x.I = &i; x.opc = i.getOpcode(); x.ty = i.getType();
                if (!i.getType()->isVoidTy()) { x.dst = slots[&i]; x.w = bitsOf(i.getType()); }
                if (auto *phi = dyn_cast<PHINode>(&i)) {
                    for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) {
                        x.ops.push_back(op(phi->getIncomingValue(k)));
                        x.idx.push_back(bbi[phi->getIncomingBlock(k)]);
                    }
                } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                    if (br->isConditional()) x.ops.push_back(op(br->getCondition()));
                    for (unsigned k = 0; k < br->getNumSuccessors(); k++) x.idx.push_back(bbi[br->getSuccessor(k)]);
                } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                    x.ops.push_back(op(sw->getCondition()));
                    x.ow = bitsOf(sw->getCondition()->getType());
                    x.idx.push_back(bbi[sw->getDefaultDest()]);
                    for (auto &c: sw->cases()) { x.swv.push_back(c.getCaseValue()->getZExtValue()); x.idx.push_back(bbi[c.getCaseSuccessor()]); }
                } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                    for (auto &a: cb->args()) x.ops.push_back(op(a.get()));
                    x.callee = cb->getCalledFunction();
                    if (!x.callee) if (auto *fn = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) x.callee = fn;
                    if (!x.callee) if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) x.callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
                    if (!x.callee) x.ops.push_back(op(cb->getCalledOperand()));
                    if (x.callee) { x.callee = redirect(x.callee); x.intr = builtinOf(x.callee); }
                    if (auto *inv = dyn_cast<InvokeInst>(&i)) { x.idx.push_back(bbi[inv->getNormalDest()]); x.idx.push_back(bbi[inv->getUnwindDest()]); }
                } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                    x.ops.push_back(op(g->getPointerOperand()));
                    int64_t off = 0;
                    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                        Value *ix = gi.getOperand();
                        if (StructType *st = gi.getStructTypeOrNull()) {
                            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                        } else {
                            uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * (int64_t) es;
                            else { GepTerm t; t.op = op(ix); t.stride = es; t.w = bitsOf(ix->getType()); x.gep.push_back(t); }
                        }
                    }
                    x.imm = (uint64_t) off;
                } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
                    x.ops.push_back(op(ev->getAggregateOperand()));
                    x.idx.assign(ev->idx_begin(), ev->idx_end());
                } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
                    x.ops.push_back(op(iv->getAggregateOperand()));
                    x.ops.push_back(op(iv->getInsertedValueOperand()));
                    x.idx.assign(iv->idx_begin(), iv->idx_end());
                } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
                    x.imm = DL->getTypeAllocSize(al->getAllocatedType());
                    x.ops.push_back(op(al->getArraySize()));
                } else {
                    for (auto &o: i.operands()) x.ops.push_back(op(o.get()));
                    if (i.getNumOperands()) x.ow = bitsOf(i.getOperand(0)->getType());
                    if (auto *c = dyn_cast<CmpInst>(&i)) x.pred = c->getPredicate();
                }
                d.code.push_back(std::move(x));
            }
        }
    }
    // an undefined function X is bound to hz_X if the models define it
    Function *redirect(Function *f) {
        if (!f->isDeclaration() || f->isIntrinsic()) return f;
        std::string n = f->getName().str();
        if (builtins.count(n)) return f;
        Function *g = M->getFunction("hz_" + n);
        return g && !g->isDeclaration() ? g : f;
    }
    int builtinOf(Function *f) {
        std::string n = f->getName().str();
        auto it = builtins.find(n);
        if (it != builtins.end() && (f->isDeclaration() || n.rfind("hzs_", 0) == 0 || it->second == I_SYMBOLIC)) return it->second;
        if (it != builtins.end() && f->isDeclaration()) return it->second;
        if (f->isIntrinsic()) {
            switch (f->getIntrinsicID()) {
                case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return I_MEMCPY;
                case Intrinsic::memmove: return I_MEMMOVE;
                case Intrinsic::memset: return I_MEMSET;
                case Intrinsic::umin: return I_UMIN; case Intrinsic::umax: return I_UMAX;
                case Intrinsic::smin: return I_SMIN; case Intrinsic::smax: return I_SMAX;
                case Intrinsic::abs: return I_ABS; case Intrinsic::ctlz: return I_CTLZ; case Intrinsic::cttz: return I_CTTZ;
                case Intrinsic::ctpop: return I_CTPOP; case Intrinsic::bswap: return I_BSWAP; case Intrinsic::bitreverse: return I_BITREV;
                case Intrinsic::fshl: return I_FSHL; case Intrinsic::fshr: return I_FSHR;
                case Intrinsic::uadd_with_overflow: return I_UADDO; case Intrinsic::usub_with_overflow: return I_USUBO;
                case Intrinsic::umul_with_overflow: return I_UMULO; case Intrinsic::sadd_with_overflow: return I_SADDO;
                case Intrinsic::ssub_with_overflow: return I_SSUBO; case Intrinsic::smul_with_overflow: return I_SMULO;
                case Intrinsic::usub_sat: return I_USUBSAT; case Intrinsic::uadd_sat: return I_UADDSAT;
                case Intrinsic::ssub_sat: return I_SSUBSAT; case Intrinsic::sadd_sat: return I_SADDSAT;
                case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint:
                case Intrinsic::sqrt: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: return I_FMATH1;
                case Intrinsic::pow: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::copysign: return I_FMATH2;
                case Intrinsic::fma: case Intrinsic::fmuladd: return I_FMA;
                case Intrinsic::expect: return I_EXPECT; case Intrinsic::objectsize: return I_OBJSIZE;
                case Intrinsic::trap: case Intrinsic::ubsantrap: return I_TRAP; case Intrinsic::is_constant: return I_ISCONST;
                case Intrinsic::eh_typeid_for: return I_TYPEID; case Intrinsic::threadlocal_address: return I_TLSADDR;
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
                case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
                case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::var_annotation: return I_IGN;
                case Intrinsic::vastart: return I_VASTART;
                case Intrinsic::stacksave: return I_STACKSAVE;
                case Intrinsic::ptr_annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return I_EXPECT;
                default: return I_UNSUPPORTED;
            }
        }
        if (f->isDeclaration()) {
            static const char *m1[] = {"fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "sqrt", "exp", "exp2", "log", "log2", "log10", "sin", "cos", "log1p", "expm1"}, *m2[] = {"pow", "fmin", "fmax", "fmod"};
            for (auto *x: m1) if (n == x || n == std::string(x) + "f") return I_FMATH1;
            for (auto *x: m2) if (n == x || n == std::string(x) + "f") return I_FMATH2;
            return I_UNSUPPORTED;
        }
        return -1;
    }

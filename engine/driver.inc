    // ---------------------------------------------------------------------------------------- driver
    static std::string jesc(const std::string &s) {
        std::string o = "\"";
        for (unsigned char c: s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o + "\"";
    }
    static std::string hex(u128 v) {
        char b[40];
        if (v >> 64) snprintf(b, 40, "%llx%016llx", (unsigned long long) (v >> 64), (unsigned long long) v);
        else snprintf(b, 40, "%llx", (unsigned long long) v);
        return b;
    }
    void writeInputs(const std::string &file, const std::vector<InputRec> &in, const ModelP &m, const std::vector<Observe> *obs, const std::string &expect) {
        std::ofstream o(file);
        o << "expect " << expect << "\n";
        o << "option max-preempt " << maxPreempt << "\n";
        for (auto &p: params) o << "param " << p.first << " " << p.second << "\n";
        for (auto &r: in) {
            if (r.choice) o << "choice " << r.name << " " << r.chosen << "\n";
            else o << "input " << r.name << " " << r.bytes << " " << hex(m->get(r.var)) << "\n";
        }
        if (obs) for (auto &x: *obs) o << "observe " << x.name << " " << hex(evalExpr(x.e, *m)) << "\n";
    }
    std::string sampleText() {
        std::string s;
        int n = 0;
        for (auto &r: S->inputs) {
            if (n++ > 24) { s += "..."; break; }
            s += (s.empty() ? "" : " ") + r.name + "=" + (r.choice ? std::to_string(r.chosen) : "0x" + hex(S->model->get(r.var)));
        }
        return s;
    }
    void endPath(const std::string &kind) {
        paths++;
        endKinds[kind]++;
        if (kind == "done" && !outDir.empty()) {
            // reservoir sample of finished paths for native validation
            uint64_t k = endKinds["done"];
            int slot = -1;
            if (k <= sampleTarget) slot = (int) k - 1;
            else { uint64_t r = rand64() % k; if (r < sampleTarget && k < 20000) slot = (int) r; }
            if (slot >= 0) {
                writeInputs(outDir + "/sample" + std::to_string(slot) + ".txt", S->inputs, S->model, &S->obs, "ok");
                if (samples.size() <= (size_t) slot) samples.resize(slot + 1);
                samples[slot] = sampleText();
            }
        }
    }
    void initBuiltins() {
        auto &b = builtins;
        b["memcpy"] = I_MEMCPY; b["memmove"] = I_MEMMOVE; b["memset"] = I_MEMSET;
        b["malloc"] = I_MALLOC; b["calloc"] = I_CALLOC; b["realloc"] = I_REALLOC; b["free"] = I_FREE;
        b["_Znwm"] = I_NEW; b["_Znam"] = I_NEWARR; b["_ZnwmRKSt9nothrow_t"] = I_NEW; b["_ZnamRKSt9nothrow_t"] = I_NEWARR;
        b["_ZdlPv"] = I_DEL; b["_ZdlPvm"] = I_DEL; b["_ZdaPv"] = I_DELARR; b["_ZdaPvm"] = I_DELARR;
        b["memcmp"] = I_MEMCMP; b["bcmp"] = I_MEMCMP; b["strlen"] = I_STRLEN; b["memchr"] = I_MEMCHR;
        b["hzs_symbolic"] = I_SYMBOLIC; b["hzs_assume"] = I_ASSUME; b["hzs_check"] = I_CHECK; b["hzs_choose_"] = I_CHOOSE;
        b["hzs_observe"] = I_OBSERVE; b["hzs_reach"] = I_REACH; b["hzs_exit"] = I_EXIT; b["hzs_param"] = I_PARAM; b["hzs_concretize"] = I_CONCRETIZE;
        b["hzs_fail"] = I_FAIL; b["hzs_bound"] = I_BOUND; b["hzs_issym"] = I_ISSYM; b["hzs_fork"] = I_PREDICT; b["hzs_live"] = I_LIVE; b["hzs_note"] = I_NOTE; b["hzs_objsize"] = I_OBJSIZEQ;
        b["hzs_thread"] = I_THREAD; b["hzs_wait"] = I_WAIT; b["hzs_wake"] = I_WAKE; b["hzs_sched"] = I_SCHED; b["hzs_self"] = I_SELF;
        b["abort"] = I_ABORT; b["__assert_fail"] = I_ABORT; b["exit"] = I_ABORT; b["_ZSt9terminatev"] = I_TERMINATE; b["__cxa_pure_virtual"] = I_PUREVIRT;
        b["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = I_ABORT; b["__stack_chk_fail"] = I_ABORT;
        b["__cxa_allocate_exception"] = I_ALLOCEXC; b["__cxa_free_exception"] = I_FREEEXC; b["__cxa_throw"] = I_THROW; b["__cxa_begin_catch"] = I_BEGINCATCH;
        b["__cxa_end_catch"] = I_ENDCATCH; b["__cxa_rethrow"] = I_RETHROW; b["_Unwind_Resume"] = I_RESUME; b["__cxa_get_exception_ptr"] = I_GETEXCPTR;
        b["__cxa_guard_acquire"] = I_GUARDACQ; b["__cxa_guard_release"] = I_GUARDREL; b["__cxa_guard_abort"] = I_IGN;
        b["__cxa_atexit"] = I_ZERO; b["__cxa_thread_atexit"] = I_ZERO; b["atexit"] = I_ZERO; b["_ZSt18uncaught_exceptionv"] = I_UNCAUGHT; b["_ZSt19uncaught_exceptionsv"] = I_UNCAUGHT;
        b["_ZNSt8ios_base4InitC1Ev"] = I_IGN; b["_ZNSt8ios_base4InitD1Ev"] = I_IGN;
    }
    int mainLoop(int argc, char **argv) {
        std::string file, entry = "hz_main", stats;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto next = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing argument\n"); exit(2); } return std::string(argv[++i]); };
            if (a == "--out") outDir = next();
            else if (a == "--param") { std::string p = next(); size_t e = p.find('='); params[p.substr(0, e)] = p.substr(e + 1); }
            else if (a == "--max-steps") maxSteps = std::stoull(next());
            else if (a == "--max-paths") maxPaths = std::stoull(next());
            else if (a == "--max-seconds") maxSeconds = std::stod(next());
            else if (a == "--solver-timeout") solver.timeoutMs = std::stoul(next());
            else if (a == "--max-preempt") maxPreempt = std::stoul(next());
            else if (a == "--max-viol") maxViol = std::stoul(next());
            else if (a == "--samples") sampleTarget = std::stoul(next());
            else if (a == "--seed") seed = std::stoull(next());
            else if (a == "--inc-timeout") solver.incTimeoutMs = std::stoul(next());
            else if (a == "--index-fork") indexFork = std::stoul(next());
            else if (a == "--plain") exprPlain = std::stoul(next()) != 0;
            else if (a == "--repo") repoDir = next();
            else if (a == "--entry") entry = next();
            else if (a == "--dump") solver.dumpDir = next();
            else file = a;
        }
        rnd ^= seed * 0x9E3779B97F4A7C15ull;
        t0 = std::chrono::steady_clock::now();
        SMDiagnostic err;
        M = parseIRFile(file, err, ctx);
        if (!M) { err.print("hzsym", errs()); return 2; }
        DL = &M->getDataLayout();
        initBuiltins();
        std::string engineError;
        try {
            setupGlobals();
            Function *mf = M->getFunction(entry);
            if (!mf || mf->isDeclaration()) throw EngineError{"no entry function " + entry};
            auto st = std::make_unique<State>();
            st->id = nextStateId++;
            st->model = std::make_shared<Model>();
            st->mem = initMem;
            Thread t;
            t.queue = ctors();
            t.queue.push_back(mf);
            st->threads.push_back(t);
            S = st.get();
            t.qpos = 0;
            S->threads[0].qpos = 1;
            pushFrame(S->threads[0], S->threads[0].queue[0], {}, -1);
            stack.push_back(std::move(st));
            unsigned tick = 0;
            while (!stack.empty()) {
                StateP cur = std::move(stack.back());
                stack.pop_back();
                S = cur.get();
                bool alive = true;
                while (alive) {
                    try {
                        if ((++tick & 0xfff) == 0 && elapsed() > maxSeconds) { timedOut = true; break; }
                        step();
                    } catch (PathEnd &e) {
                        endPath(e.kind);
                        alive = false;
                    } catch (EngineError &e) {
                        // a construct the engine cannot execute: this path is not decided
                        std::string m = e.msg;
                        if (!S->threads.empty() && !S->threads[S->cur].stack.empty()) m += " at " + where(S->threads[S->cur]);
                        endPath("engine-limit");
                        incomplete["engine-limit: " + m]++;
                        alive = false;
                    }
                }
                if (timedOut || paths >= maxPaths || violations.size() >= maxViol) break;
            }
        } catch (EngineError &e) {
            engineError = e.msg;
            if (S && !S->threads.empty() && !S->threads[S->cur].stack.empty()) engineError += " at " + where(S->threads[S->cur]);
        }
        if (timedOut) incomplete["time-limit"] = stack.size() + 1;
        else if (!stack.empty() && violations.empty() && engineError.empty()) incomplete["path-limit"] = stack.size();
        // ------------------------------------------------------------------------------------ report
        if (!outDir.empty()) for (size_t i = 0; i < violations.size(); i++)
            writeInputs(outDir + "/cex" + std::to_string(i) + ".txt", violations[i].inputs, violations[i].model, &violations[i].obs, violations[i].kind);
        std::ostringstream o;
        o << "{\n \"paths\": " << paths << ", \"instructions\": " << instrs << ", \"forks\": " << forks << ", \"checks\": " << checks
          << ", \"checks_proved\": " << checksProved << ", \"checks_constant\": " << checksConst << ",\n \"exprs\": " << exprCount() << ", \"domain_decisions\": " << domainDecisions << ", \"symbolic_vars\": " << nextVar << ",\n";
        auto &q = solver.st;
        o << " \"queries\": " << q.queries << ", \"sat\": " << q.sat << ", \"unsat\": " << q.unsat << ", \"unknown\": " << q.unknown << ", \"cache_hits\": " << q.cacheHits
          << ", \"model_hits\": " << q.modelHits << ", \"abstract_unsat\": " << q.abstractUnsat << ", \"solver_seconds\": " << q.seconds << ", \"max_query_seconds\": " << q.maxSeconds << ", \"seconds\": " << elapsed() << ",\n";
        auto mp = [&](const char *n, std::map<std::string, uint64_t> &m) {
            o << " \"" << n << "\": {";
            bool first = true;
            for (auto &x: m) { o << (first ? "" : ", ") << jesc(x.first) << ": " << x.second; first = false; }
            o << "},\n";
        };
        mp("ends", endKinds); mp("reach", reach); mp("incomplete", incomplete);
        o << " \"engine_error\": " << (engineError.empty() ? "null" : jesc(engineError)) << ",\n \"functions\": [";
        bool first = true;
        for (auto &x: encoded) { o << (first ? "" : ", ") << jesc(x); first = false; }
        o << "],\n \"notes\": [";
        first = true;
        for (auto &s: notes) { o << (first ? "" : ", ") << jesc(s); first = false; }
        o << "],\n \"samples\": [";
        first = true;
        for (auto &s: samples) { o << (first ? "" : ", ") << jesc(s); first = false; }
        o << "],\n \"violations\": [";
        first = true;
        for (auto &v: violations) {
            o << (first ? "\n" : ",\n") << "  {\"kind\": " << jesc(v.kind) << ", \"msg\": " << jesc(v.msg) << ", \"where\": " << jesc(v.where) << ", \"inputs\": {";
            bool f2 = true;
            std::map<std::string, int> cnt;
            for (auto &r: v.inputs) {
                int k = cnt[r.name]++;
                std::string nm = k ? r.name + "#" + std::to_string(k) : r.name;
                o << (f2 ? "" : ", ") << jesc(nm) << ": " << jesc(r.choice ? std::to_string(r.chosen) : "0x" + hex(v.model->get(r.var)));
                f2 = false;
            }
            o << "}}";
            first = false;
        }
        o << "]\n}\n";
        if (!outDir.empty()) { std::ofstream f(outDir + "/result.json"); f << o.str(); }
        else fputs(o.str().c_str(), stdout);
        if (!engineError.empty()) { fprintf(stderr, "hzsym: %s\n", engineError.c_str()); return 2; }
        return violations.empty() ? 0 : 1;
    }

// External functions and LLVM intrinsics modelled by the engine. Included by vfe.cpp.
struct AssumeFail {};
static bool in_ctors = false;
static unsigned opt_solver_to = 120;

typedef void (*ExtFn)(State&, Thread&, Frame&, const KI&, Function*);
static std::vector<ExtFn> ext_fns;
static std::unordered_map<std::string, int> ext_names;
static int ext_lookup(const std::string& n)
{
    auto it = ext_names.find(n);
    return it == ext_names.end() ? -1 : it->second;
}
static void do_extern(State& s, Thread& t, Frame& f, const KI& k, int id, Function* F) { ext_fns[(size_t)id](s, t, f, k, F); }

static u64 argc_(State& s, Frame& f, const KI& k, int i) { return concretize(s, R(f, k.ops[(size_t)i])); }

static bool do_assume(State& s, const Val& v)
{
    if (v.conc()) return v.c & 1;
    Expr* c = v.e->w == 1 ? v.e : X.notE(X.bin(EQ, v.e, X.c(0, v.e->w)));
    c = subst(s, c);
    if (c->op == CONST) return c->val != 0;
    std::vector<u64> nm;
    s.forced = true;
    int ok = feasible(s, c, &nm);
    s.forced = false;
    if (!ok) return false;
    s.model = nm;
    add_pc(s, c);
    return true;
}
static void do_check(State& s, const Val& v, const std::string& msg, const char* kind = "assertion")
{
    st_checks++;
    if (v.conc()) { if (!v.c) violate(s, kind, msg); return; }
    Expr* c = v.e->w == 1 ? v.e : X.notE(X.bin(EQ, v.e, X.c(0, v.e->w)));
    c = subst(s, c);
    if (c->op == CONST) { if (!c->val) violate(s, kind, msg); return; }
    std::vector<u64> nm;
    if (feasible(s, X.notE(c), &nm)) violate(s, kind, msg, &nm);
    s.known[c] = 1;
}
static void heap_free(State& s, u64 p, uint8_t kind)
{
    if (!p) return;
    int r; long idx;
    Obj* o = lookup(s, p, r, idx);
    if (!o || r != 1 || o->addr != p) {
        if (o && p < o->addr + o->size + 1 && o->freed) violate(s, "double-free", hex(p));
        violate(s, "bad-free", hex(p));
    }
    if (o->freed) violate(s, "double-free", hex(p) + (o->site ? " allocated at " + loc(o->site) : ""));
    // (malloc'd memory released by operator delete, as /repo does with posix_memalign, is not judged: both are the same heap here)
    if (o->alloc_kind > 1 && kind > 1 && o->alloc_kind != kind) violate(s, "mismatched-free", hex(p) + (o->site ? " allocated at " + loc(o->site) : ""));
    if (s.mt) race_check(s, r, idx, 0, o->size, true);
    o = writable(s, r, idx);
    o->freed = true;
    o->b.clear(); o->b.shrink_to_fit();
    o->st.clear(); o->sym.clear(); o->shadow.clear();
    s.nheap_live--;
    if (!s.atomvc.empty()) s.atomvc.erase(s.atomvc.lower_bound(o->addr), s.atomvc.lower_bound(o->addr + o->size));
    if (!s.mtx.empty()) {
        auto a = s.mtx.lower_bound(o->addr), b = s.mtx.lower_bound(o->addr + o->size);
        for (auto i = a; i != b; ++i) if (i->second.owner >= 0) violate(s, "mutex-misuse", "memory of a locked mutex is freed");
        s.mtx.erase(a, b);
    }
}
static Obj* heap_alloc(State& s, u64 n, u64 al, uint8_t kind, const Instruction* site)
{
    if (n > ((u64)1 << 28)) violate(s, "huge-allocation", std::to_string(n) + " bytes");
    Obj* o = alloc(s, 1, n, KHeap, al, site);
    o->alloc_kind = kind;
    make_uninit(o);
    s.nheap_live++;
    o->serial = s.serial++;
    return o;
}
static int choice(State& s, const std::string& name, u64 n, bool& first)
{
    (void)s; (void)name; (void)n; (void)first;
    return 0;
}

// ---- memory compare as one expression (no forking)
static Expr* memcmp_expr(State& s, u64 a, u64 b, u64 n)
{
    int r1, r2; long i1, i2;
    if (!n) return X.c(0, 32);
    Obj* o1 = lookup(s, a, r1, i1); check_access(s, o1, a, n, false);
    Obj* o2 = lookup(s, b, r2, i2); check_access(s, o2, b, n, false);
    if (s.mt) { race_check(s, r1, i1, a - o1->addr, n, false); race_check(s, r2, i2, b - o2->addr, n, false); }
    u64 f1 = a - o1->addr, f2 = b - o2->addr;
    Expr* res = X.c(0, 32);
    for (u64 i = n; i-- > 0;) {
        Expr *x = byte_at(s, r1, i1, f1 + i), *y = byte_at(s, r2, i2, f2 + i);
        if (x == y) continue;
        Expr* d = X.ite(X.bin(ULT, x, y), X.c(0xffffffff, 32), X.c(1, 32));
        res = X.ite(X.bin(EQ, x, y), res, d);
    }
    return res;
}

static void spawn(State& s, u64 fn, u64 arg, u64 out)
{
    if ((int)s.th.size() >= MAXTH) throw Abort{"too many threads"};
    auto it = faddr.find(fn);
    if (it == faddr.end()) violate(s, "bad-call", "thread start routine");
    int id = (int)s.th.size();
    s.th.emplace_back();
    Thread& n = s.th.back();
    n.vc.assign(MAXTH, 0);
    Thread& me = s.th[s.cur];
    n.vc = me.vc;
    n.vc[(size_t)id] = 1;
    hb_tick(s);
    if (out) store(s, Val(out), Val((u64)id + 1), 8, 64);
    s.mt = true;
    push_frame(s, n, it->second, {Val(arg)}, nullptr);
}

static void init_externs()
{
    auto def = [&](const char* n, ExtFn fn) { ext_names[n] = (int)ext_fns.size(); ext_fns.push_back(fn); };
#define EXT(name) def(name, [](State & s, Thread & t, Frame & f, const KI& k, Function* F) { (void)t; (void)F; (void)s; (void)f; (void)k;
#define END });
#define A(i) argc_(s, f, k, i)
#define RET(v) { ext_ret(s, f, k, (v)); return; }
    EXT("vf_sym") std::string n = cstr(s, A(0)); unsigned w = (unsigned)A(1); Expr* v = new_input(s, n, w); Val r; r = Val(w < 64 ? X.zext(v, 64) : v); RET(r) END
    EXT("vf_make_symbolic")
        u64 p = A(0), n = A(1); std::string nm = cstr(s, A(2));
        if (n) {
            int r; long idx; Obj* o = lookup(s, p, r, idx); check_access(s, o, p, n, true);
            if (s.mt) race_check(s, r, idx, p - o->addr, n, true);
            for (u64 i = 0; i < n; i++) { Expr* v = new_input(s, nm + "[" + std::to_string(i) + "]", 8); set_byte(writable(s, r, idx), p - o->addr + i, v); }
        }
        RET(Val()) END
    EXT("vf_assume") if (!do_assume(s, R(f, k.ops[0]))) throw AssumeFail(); RET(Val()) END
    EXT("vf_check") do_check(s, R(f, k.ops[0]), cstr(s, A(1))); RET(Val()) END
    EXT("vf_fail") violate(s, "assertion", cstr(s, A(0))); END
    EXT("vf_skip") throw AssumeFail(); END
    EXT("vf_choice")
        // one symbolic input restricted to [0,n), split over all its values
        u64 n = A(1);
        if (n == 0) throw AssumeFail();
        std::string nm = cstr(s, A(0));
        unsigned w = n <= 256 ? 8 : 32;
        for (u64 i = 1; i < n; i++) {
            State* c = clone(s);
            Expr* v = new_input(*c, nm, w);
            c->model.back() = i;
            add_pc(*c, X.bin(EQ, v, X.c(i, w)));
            ext_ret(*c, c->th[c->cur].fr.back(), k, Val(i));
            work.push_back(c);
        }
        Expr* v = new_input(s, nm, w);
        s.model.back() = 0;
        add_pc(s, X.bin(EQ, v, X.c(0, w)));
        RET(Val((u64)0)) END
    EXT("vf_concretize") RET(Val(A(0))) END
    EXT("vf_observe") s.observed.push_back(E(R(f, k.ops[0]), 64)); RET(Val()) END
    EXT("vf_reach") reached.insert(cstr(s, A(0))); RET(Val()) END
    EXT("vf_param") std::string n = cstr(s, A(0)); auto it = params.find(n); RET(Val(it == params.end() ? A(1) : it->second)) END
    EXT("vf_live_heap") RET(Val(s.nheap_live)) END
    EXT("vf_is_live") u64 p = A(0); int r; long idx; Obj* o = lookup(s, p, r, idx); RET(Val((u64)(o && !o->freed && p >= o->addr && p < o->addr + o->size))) END
    EXT("vf_log") std::string m = cstr(s, A(0)); Val v = R(f, k.ops[1]); s.path_note.push_back(m + " " + (v.conc() ? std::to_string(v.c) : std::to_string((u64)X.eval(v.e, s.model)) + " (symbolic)"));
        if (opt_trace) { fprintf(stderr, "log: %s\n", s.path_note.back().c_str()); } RET(Val()) END
    EXT("vf_note") s.path_note.push_back(cstr(s, A(0))); RET(Val()) END
    EXT("vf_yield") sched_point(s); RET(Val()) END
    EXT("vf_norace") u64 o = s.norace; s.norace = A(0) & 1; RET(Val(o)) END // accesses of a model function are not the code's own: exempt from race detection
    EXT("vf_thread_id") RET(Val((u64)s.cur)) END
    EXT("vf_clock") RET(Val(s.clock)) END
    EXT("vf_is_native") RET(Val((u64)0)) END
    EXT("vf_is_concrete") Val v = R(f, k.ops[0]); if (!v.conc()) v = Val(subst(s, v.e)); RET(Val((u64)v.conc())) END
    EXT("vf_refadd") // uninterleaved atomic add on a reference count: returns the old value
        u64 p = A(0); Val d = R(f, k.ops[1]); Val old = load(s, Val(p), 4, 32, true);
        store(s, Val(p), do_bin(s, Instruction::Add, old, d, 32), 4, 32, true);
        if (s.mt) { VC& x = s.atomvc[p]; x.resize(MAXTH, 0); vc_join(t.vc, x); vc_join(x, t.vc); hb_tick(s); }
        RET(old) END
    EXT("vf_ite") Val c = R(f, k.ops[0]); Val a = R(f, k.ops[1]), b = R(f, k.ops[2]);
        if (c.conc()) RET(c.c ? a : b)
        Expr* ce = c.e->w == 1 ? c.e : X.notE(X.bin(EQ, c.e, X.c(0, c.e->w)));
        RET(Val(X.ite(ce, E(a, 64), E(b, 64)))) END

    // allocation
    EXT("malloc") u64 n = A(0); Obj* o = heap_alloc(s, n, 16, 1, k.I); RET(Val(o->addr)) END
    EXT("calloc") u64 n = A(0) * A(1); Obj* o = heap_alloc(s, n, 16, 1, k.I); o->st.clear(); RET(Val(o->addr)) END
    EXT("realloc")
        u64 p = A(0), n = A(1); Obj* o = heap_alloc(s, n, 16, 1, k.I); u64 na = o->addr;
        if (p) { int r; long idx; Obj* q = lookup(s, p, r, idx); if (!q || q->addr != p || q->freed) violate(s, "bad-free", "realloc"); copy_mem(s, na, p, std::min(n, q->size)); heap_free(s, p, 1); }
        RET(Val(na)) END
    EXT("free") heap_free(s, A(0), 1); RET(Val()) END
    EXT("_Znwm") Obj* o = heap_alloc(s, A(0), 16, 2, k.I); RET(Val(o->addr)) END
    EXT("_Znam") Obj* o = heap_alloc(s, A(0), 16, 3, k.I); RET(Val(o->addr)) END
    EXT("_ZnwmRKSt9nothrow_t") Obj* o = heap_alloc(s, A(0), 16, 2, k.I); RET(Val(o->addr)) END
    EXT("_ZnamRKSt9nothrow_t") Obj* o = heap_alloc(s, A(0), 16, 3, k.I); RET(Val(o->addr)) END
    EXT("_ZnwmSt11align_val_t") Obj* o = heap_alloc(s, A(0), A(1), 2, k.I); RET(Val(o->addr)) END
    EXT("_ZnamSt11align_val_t") Obj* o = heap_alloc(s, A(0), A(1), 3, k.I); RET(Val(o->addr)) END
    EXT("_ZdlPv") heap_free(s, A(0), 2); RET(Val()) END
    EXT("_ZdaPv") heap_free(s, A(0), 3); RET(Val()) END
    EXT("_ZdlPvm") heap_free(s, A(0), 2); RET(Val()) END
    EXT("_ZdaPvm") heap_free(s, A(0), 3); RET(Val()) END
    EXT("_ZdlPvRKSt9nothrow_t") heap_free(s, A(0), 2); RET(Val()) END
    EXT("_ZdaPvRKSt9nothrow_t") heap_free(s, A(0), 3); RET(Val()) END
    EXT("_ZdlPvSt11align_val_t") heap_free(s, A(0), 2); RET(Val()) END
    EXT("_ZdlPvmSt11align_val_t") heap_free(s, A(0), 2); RET(Val()) END
    EXT("_ZdaPvSt11align_val_t") heap_free(s, A(0), 3); RET(Val()) END
    EXT("aligned_alloc") u64 al = A(0); Obj* o = heap_alloc(s, A(1), al, 1, k.I); RET(Val(o->addr)) END
    EXT("posix_memalign")
        u64 p = A(0), al = A(1), n = A(2);
        if (al < 8 || (al & (al - 1))) RET(Val((u64)22))
        Obj* o = heap_alloc(s, n, al, 1, k.I); store(s, Val(p), Val(o->addr), 8, 64); RET(Val((u64)0)) END

    // memory
    EXT("memcpy") u64 d = A(0), c = A(1), n = A(2); copy_mem(s, d, c, n); RET(Val(d)) END
    EXT("memmove") u64 d = A(0), c = A(1), n = A(2); copy_mem(s, d, c, n); RET(Val(d)) END
    EXT("memset") u64 d = A(0), n = A(2); set_mem(s, d, R(f, k.ops[1]), n); RET(Val(d)) END
    EXT("memcmp") u64 a = A(0), b = A(1), n = A(2); RET(Val(memcmp_expr(s, a, b, n))) END
    EXT("bcmp") u64 a = A(0), b = A(1), n = A(2); RET(Val(memcmp_expr(s, a, b, n))) END
    EXT("strlen") RET(Val((u64)cstr(s, A(0)).size())) END
    EXT("strcmp") u64 a = A(0), b = A(1); std::string x = cstr(s, a), y = cstr(s, b); RET(Val((u64)(uint32_t)(x < y ? -1 : x > y))) END
    EXT("strncmp") u64 a = A(0), b = A(1), n = A(2); std::string x = cstr(s, a).substr(0, n), y = cstr(s, b).substr(0, n); RET(Val((u64)(uint32_t)(x < y ? -1 : x > y))) END
    EXT("memchr")
        u64 a = A(0), c = A(1) & 255, n = A(2); u64 res = 0;
        for (u64 i = 0; i < n; i++) { Val v = load(s, Val(a + i), 1, 8); bool eq = v.conc() ? v.c == c : decide(s, X.bin(EQ, v.e, X.c(c, 8))); if (eq) { res = a + i; break; } }
        RET(Val(res)) END
    EXT("abort") violate(s, "abort", "abort() called"); END
    EXT("_ZSt9terminatev") violate(s, "terminate", "std::terminate() called"); END
    EXT("__clang_call_terminate") violate(s, "terminate", "exception escapes a noexcept region"); END
    EXT("__cxa_pure_virtual") violate(s, "pure-virtual-call", ""); END
    EXT("__assert_fail") violate(s, "assert", cstr(s, A(0)) + " at " + cstr(s, A(1)) + ":" + std::to_string(A(2))); END
    EXT("exit") throw PathEnd(); END
    EXT("_exit") throw PathEnd(); END
    EXT("__cxa_atexit") RET(Val((u64)0)) END
    EXT("__cxa_thread_atexit") RET(Val((u64)0)) END
    EXT("__vf_unwind") u64 e = A(0), ti = A(1); unwind(s, e, ti, false); END
    EXT("__errno_location")
        static int dummy; (void)dummy;
        // per-thread errno
        { static std::map<int, u64> none; (void)none; }
        if (!t.pth) { Obj* o = alloc(s, 1, 4, KTls, 16, nullptr); o->name = "errno"; t.pth = o->addr; }
        RET(Val(t.pth)) END
    EXT("rand") RET(Val((u64)4)) END

    // threads
    EXT("pthread_create") sched_point(s); u64 p = A(0), fn = A(2), a = A(3); spawn(s, fn, a, p);
        Frame& f2 = s.th[s.cur].fr.back(); ext_ret(s, f2, k, Val((u64)0)); END
    EXT("pthread_join")
        sched_point(s);
        u64 id = A(0) - 1;
        if (id >= s.th.size()) violate(s, "bad-join", "");
        if (s.th[id].joined || s.th[id].detached) violate(s, "bad-join", "thread already joined or detached");
        if ((int)id == s.cur) violate(s, "deadlock", "thread joins itself");
        if (s.th[id].st != TDone) { t.st = TJoin; t.wait = id; s.keep_sched = true; block_switch(s); return; }
        s.th[id].joined = true;
        vc_join(t.vc, s.th[id].vc);
        RET(Val((u64)0)) END
    EXT("pthread_detach") u64 id = A(0) - 1; if (id < s.th.size()) s.th[id].detached = true; RET(Val((u64)0)) END
    EXT("pthread_self") RET(Val((u64)s.cur + 1)) END
    EXT("pthread_equal") RET(Val((u64)(A(0) == A(1)))) END
    EXT("sched_yield") sched_point(s); RET(Val((u64)0)) END
    EXT("pthread_mutex_init") RET(Val((u64)0)) END
    EXT("pthread_mutex_destroy") u64 m = A(0); auto it = s.mtx.find(m); if (it != s.mtx.end() && it->second.owner >= 0) violate(s, "mutex-misuse", "destroying a locked mutex"); s.mtx.erase(m); RET(Val((u64)0)) END
    EXT("pthread_mutex_lock")
        if (s.mt) sched_point(s);
        u64 m = A(0);
        u64 kind = load(s, Val(m + 16), 4, 32, true).c;
        if (mutex_lock(s, m, kind == 1)) RET(Val((u64)0))
        t.st = TMutex; t.wait = m; s.keep_sched = true; block_switch(s); END
    EXT("pthread_mutex_trylock")
        if (s.mt) sched_point(s);
        u64 m = A(0);
        Mutex& M_ = mutex_at(s, m);
        if (M_.owner >= 0) RET(Val((u64)16))
        mutex_lock(s, m, false); RET(Val((u64)0)) END
    EXT("pthread_mutex_unlock") mutex_unlock(s, A(0)); RET(Val((u64)0)) END
    EXT("pthread_cond_init") RET(Val((u64)0)) END
    EXT("pthread_cond_destroy") u64 c = A(0); auto it = s.condwaiters.find(c); if (it != s.condwaiters.end() && it->second > 0) violate(s, "cond-misuse", "destroying a condition variable with waiting threads"); RET(Val((u64)0)) END
#define CONDWAIT(TIMED) \
        u64 c = A(0), m = A(1); \
        if (TIMED && t.retphase != 1) { u64 ts = A(TIMED); t.deadline = concretize(s, load(s, Val(ts), 8, 64)) * 1000000000ull + concretize(s, load(s, Val(ts + 8), 8, 64)); } \
        if (t.retphase == 1) { \
            if (!mutex_lock(s, m, false)) { t.st = TMutex; t.wait = m; s.keep_sched = true; block_switch(s); return; } \
            t.retphase = 0; bool to = t.timed_out; t.timed_out = false; \
            RET(Val((u64)(to ? 110 : 0))) \
        } \
        if (s.mt) sched_point(s); \
        { int r; long idx; Obj* o = lookup(s, c, r, idx); check_access(s, o, c, 8, true); } \
        mutex_unlock(s, m); \
        t.retphase = 1; \
        if (s.spurious < opt_spurious) { \
            State* n = clone(s); n->spurious++; n->sched.push_back(-2); \
            Expr* sv = new_input(*n, "spurious", 8, false); n->model.back() = 1; add_pc(*n, X.bin(EQ, sv, X.c(1, 8))); \
            n->th[(size_t)n->cur].st = TMutex; n->th[(size_t)n->cur].wait = m; n->th[(size_t)n->cur].sched_done = true; block_switch(*n); work.push_back(n); \
            s.sched.push_back(-3); \
        } \
        s.condwaiters[c]++; \
        t.st = TIMED ? TCondTimed : TCond; t.wait = c; t.wait2 = m; s.keep_sched = true; block_switch(s);
    EXT("pthread_cond_wait") CONDWAIT(0) END
    EXT("pthread_cond_timedwait") CONDWAIT(2) END
    EXT("pthread_cond_clockwait") CONDWAIT(3) END
    EXT("pthread_cond_broadcast")
        if (s.mt) sched_point(s);
        u64 c = A(0);
        { int r; long idx; Obj* o = lookup(s, c, r, idx); check_access(s, o, c, 8, true); }
        for (auto& w : s.th) if ((w.st == TCond || w.st == TCondTimed) && w.wait == c) { w.st = TMutex; w.wait = w.wait2; }
        s.condwaiters.erase(c);
        RET(Val((u64)0)) END
    EXT("pthread_cond_signal")
        if (s.mt) sched_point(s);
        u64 c = A(0);
        { int r; long idx; Obj* o = lookup(s, c, r, idx); check_access(s, o, c, 8, true); }
        std::vector<int> ws;
        for (int i = 0; i < (int)s.th.size(); i++) if ((s.th[(size_t)i].st == TCond || s.th[(size_t)i].st == TCondTimed) && s.th[(size_t)i].wait == c) ws.push_back(i);
        auto sig = [&](State& q, int i) { Thread& w = q.th[(size_t)i]; w.st = TMutex; w.wait = w.wait2; if (--q.condwaiters[c] <= 0) q.condwaiters.erase(c); };
        if (ws.size() > 1) {
            for (size_t i = 1; i < ws.size() && opt_preempt >= 0; i++) {
                State* n = clone(s);
                n->sched.push_back(ws[i]);
                Expr* sv = new_input(*n, "signal", 8, false); n->model.back() = (u64)ws[i]; add_pc(*n, X.bin(EQ, sv, X.c((u64)ws[i], 8)));
                sig(*n, ws[i]);
                n->th[(size_t)n->cur].sched_done = false;
                ext_ret(*n, n->th[(size_t)n->cur].fr.back(), k, Val((u64)0));
                work.push_back(n);
            }
            s.sched.push_back(ws[0]);
        }
        if (!ws.empty()) sig(s, ws[0]);
        RET(Val((u64)0)) END
#undef EXT
#undef END
}

static void do_intrinsic(State& s, Thread& t, Frame& f, const KI& k, Function* F)
{
    (void)t;
    Intrinsic::ID id = F->getIntrinsicID();
    auto ret = [&](const Val& v) { ext_ret(s, f, k, v); };
    auto un = [&](auto fn) { // lane-wise unary
        std::vector<Leaf> l; leaves(k.I->getType(), 0, l);
        for (unsigned i = 0; i < k.nleaf; i++) f.regs[(size_t)k.dest + i] = fn(R(f, k.ops[0], (int)i), l[i].w);
        f.pc++;
    };
    auto bi = [&](auto fn) {
        std::vector<Leaf> l; leaves(k.I->getType(), 0, l);
        for (unsigned i = 0; i < k.nleaf; i++) f.regs[(size_t)k.dest + i] = fn(E(R(f, k.ops[0], (int)i), l[i].w), E(R(f, k.ops[1], (int)i), l[i].w), l[i].w);
        f.pc++;
    };
    unsigned w = k.ops.empty() ? 0 : k.opw[0];
    switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore:
    case Intrinsic::invariant_end: case Intrinsic::var_annotation:
        ret(Val()); return;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: ret(Val((u64)0)); return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret(R(f, k.ops[0])); return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 d = A(0), c = A(1), n = A(2); copy_mem(s, d, c, n); ret(Val()); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 d = A(0), n = A(2); set_mem(s, d, R(f, k.ops[1]), n); ret(Val()); return; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violate(s, "trap", "undefined behaviour trap");
    case Intrinsic::objectsize: ret(Val((u64)-1)); return;
    case Intrinsic::is_constant: ret(Val((u64)0)); return;
    case Intrinsic::threadlocal_address: {
        auto* G = cast<GlobalVariable>(cast<CallBase>(k.I)->getArgOperand(0)->stripPointerCasts());
        ret(Val(tls_addr(s, G)));
        return;
    }
    case Intrinsic::eh_typeid_for: ret(Val(ti_id(A(0)))); return;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
        Op op = mul ? MUL : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ADD : SUB;
        Expr *a = E(R(f, k.ops[0]), w), *b = E(R(f, k.ops[1]), w);
        unsigned w2 = mul ? 2 * w : w + 1;
        if (w2 > 128) throw Abort{"wide overflow op"};
        Expr* wide = sg ? X.bin(op, X.sext(a, w2), X.sext(b, w2)) : X.bin(op, X.zext(a, w2), X.zext(b, w2));
        Expr* res = X.bin(op, a, b);
        Expr* ov = X.notE(X.bin(EQ, wide, sg ? X.sext(res, w2) : X.zext(res, w2)));
        ext_ret2(s, f, k, Val(res), Val(ov));
        return;
    }
    case Intrinsic::umin: if (opt_forksel && k.nleaf == 1 && !(R(f, k.ops[0]).conc() && R(f, k.ops[1]).conc())) { bool d = decide(s, X.bin(ULT, E(R(f, k.ops[0]), w), E(R(f, k.ops[1]), w))); ret(R(f, k.ops[d ? 0 : 1])); return; } bi([&](Expr* a, Expr* b, unsigned) { return Val(X.ite(X.bin(ULT, a, b), a, b)); }); return;
    case Intrinsic::umax: if (opt_forksel && k.nleaf == 1 && !(R(f, k.ops[0]).conc() && R(f, k.ops[1]).conc())) { bool d = decide(s, X.bin(ULT, E(R(f, k.ops[0]), w), E(R(f, k.ops[1]), w))); ret(R(f, k.ops[d ? 1 : 0])); return; } bi([&](Expr* a, Expr* b, unsigned) { return Val(X.ite(X.bin(ULT, a, b), b, a)); }); return;
    case Intrinsic::smin: if (opt_forksel && k.nleaf == 1 && !(R(f, k.ops[0]).conc() && R(f, k.ops[1]).conc())) { bool d = decide(s, X.bin(SLT, E(R(f, k.ops[0]), w), E(R(f, k.ops[1]), w))); ret(R(f, k.ops[d ? 0 : 1])); return; } bi([&](Expr* a, Expr* b, unsigned) { return Val(X.ite(X.bin(SLT, a, b), a, b)); }); return;
    case Intrinsic::smax: if (opt_forksel && k.nleaf == 1 && !(R(f, k.ops[0]).conc() && R(f, k.ops[1]).conc())) { bool d = decide(s, X.bin(SLT, E(R(f, k.ops[0]), w), E(R(f, k.ops[1]), w))); ret(R(f, k.ops[d ? 1 : 0])); return; } bi([&](Expr* a, Expr* b, unsigned) { return Val(X.ite(X.bin(SLT, a, b), b, a)); }); return;
    case Intrinsic::usub_sat: bi([&](Expr* a, Expr* b, unsigned w) { return Val(X.ite(X.bin(ULT, a, b), X.c(0, w), X.bin(SUB, a, b))); }); return;
    case Intrinsic::uadd_sat: bi([&](Expr* a, Expr* b, unsigned w) { Expr* r = X.bin(ADD, a, b); return Val(X.ite(X.bin(ULT, r, a), X.c(mask(w), w), r)); }); return;
    case Intrinsic::abs: un([&](const Val& v, unsigned w) { Expr* a = E(v, w); return Val(X.ite(X.bin(SLT, a, X.c(0, w)), X.bin(SUB, X.c(0, w), a), a)); }); return;
    case Intrinsic::bswap: un([&](const Val& v, unsigned w) { Expr* a = E(v, w); Expr* r = X.extract(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = X.concat(r, X.extract(a, i, 8)); return Val(r); }); return;
    case Intrinsic::bitreverse: un([&](const Val& v, unsigned w) { Expr* a = E(v, w); Expr* r = X.extract(a, 0, 1); for (unsigned i = 1; i < w; i++) r = X.concat(r, X.extract(a, i, 1)); return Val(r); }); return;
    case Intrinsic::ctpop: un([&](const Val& v, unsigned w) { Expr* a = E(v, w); Expr* r = X.c(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(ADD, r, X.zext(X.extract(a, i, 1), w)); return Val(r); }); return;
    case Intrinsic::ctlz: un([&](const Val& v, unsigned w) { Expr* a = E(v, w); Expr* r = X.c(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.extract(a, i, 1), X.c(w - 1 - i, w), r); return Val(r); }); return;
    case Intrinsic::cttz: un([&](const Val& v, unsigned w) { Expr* a = E(v, w); Expr* r = X.c(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.extract(a, i, 1), X.c(i, w), r); return Val(r); }); return;
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Expr *a = E(R(f, k.ops[0]), w), *b = E(R(f, k.ops[1]), w), *c = E(R(f, k.ops[2]), w);
        Expr* sh = X.bin(UREM, c, X.c(w, w));
        if (2 * w <= 128) {
            Expr* cc = X.concat(a, b);
            Expr* s2 = X.zext(sh, 2 * w);
            Expr* r = id == Intrinsic::fshl ? X.extract(X.bin(SHL, cc, s2), w, w) : X.extract(X.bin(LSHR, cc, s2), 0, w);
            ret(Val(r));
            return;
        }
        throw Abort{"wide funnel shift"};
    }
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::nearbyint: {
        u128 v = R(f, k.ops[0]).conc() ? (u128)R(f, k.ops[0]).c : (R(f, k.ops[0]).e->op == CONST ? R(f, k.ops[0]).e->val : (u128)concretize(s, R(f, k.ops[0])));
        long double d = fp_to_ld(v, w), r = 0;
        switch (id) {
        case Intrinsic::ceil: r = ceill(d); break;
        case Intrinsic::floor: r = floorl(d); break;
        case Intrinsic::trunc: r = truncl(d); break;
        case Intrinsic::fabs: r = fabsl(d); break;
        case Intrinsic::sqrt: r = w == 32 ? (long double)sqrtf((float)d) : w == 64 ? (long double)sqrt((double)d) : sqrtl(d); break;
        case Intrinsic::round: r = roundl(d); break;
        default: r = rintl(d);
        }
        u128 o = ld_to_fp(r, w);
        Val rv;
        if (w <= 64) rv = Val((u64)o); else rv.e = X.c(o, w);
        ret(rv);
        return;
    }
    case Intrinsic::fmuladd: {
        Expr *a = E(R(f, k.ops[0]), w), *b = E(R(f, k.ops[1]), w), *c = E(R(f, k.ops[2]), w);
        ret(Val(X.fp(FADD, w, X.fp(FMUL, w, a, b), c)));
        return;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
        unsigned n = nleaves(k.I->getOperand(0)->getType());
        unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Xor;
        Val r = R(f, k.ops[0], 0);
        for (unsigned i = 1; i < n; i++) r = do_bin(s, op, r, R(f, k.ops[0], (int)i), w);
        ret(r);
        return;
    }
    default: throw Abort{"unsupported intrinsic " + F->getName().str()};
    }
}
